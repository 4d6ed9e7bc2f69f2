FIELDS = {
    ('Archetype', 'ids'): (0, '*mut std::any::TypeId'),
    ('Archetype', 'sizes'): (1, '*mut usize'),
    ('Archetype', 'aligns'): (2, '*mut usize'),
    ('Archetype', 'names'): (3, '*mut &str'),
    ('Archetype', 'component_count'): (4, 'usize'),
    ('ArchetypesUnion', 'lhs_indices'): (0, 'std::vec::Vec<usize>'),
    ('ArchetypesUnion', 'rhs_indices'): (1, 'std::vec::Vec<usize>'),
    ('ArchetypeBuilder', 'component_types'): (0, 'std::vec::Vec<component_type::ComponentType>'),
    ('ArchetypeDataPage', 'entities_ids'): (0, 'std::vec::Vec<u32>'),
    ('ArchetypeDataPage', 'entities_capacity'): (1, 'usize'),
    ('ArchetypeDataPage', 'components_data_ptr'): (2, '*mut u8'),
    ('SwapRemoveInfo', 'id_to_replace'): (0, 'u32'),
    ('ArchetypeDataPageView', 'archetype'): (0, '&archetype::Archetype'),
    ('ArchetypeDataPageView', 'layout'): (1, '&archetype_layout::ArchetypeLayout'),
    ('ArchetypeDataPageView', 'page'): (2, '&archetype_data_page::ArchetypeDataPage'),
    ('ArchetypeLayout', 'offsets'): (0, '*mut usize'),
    ('ArchetypeLayout', 'component_count'): (1, 'usize'),
    ('ArchetypeLayout', 'entities_capacity'): (2, 'usize'),
    ('ArchetypesContainer', 'archetypes'): (0, 'std::vec::Vec<archetype::Archetype>'),
    ('ArchetypesContainer', 'layouts'): (1, 'std::vec::Vec<archetype_layout::ArchetypeLayout>'),
    ('ArchetypesContainer', 'archetype_to_pages'): (2, 'std::vec::Vec<archetypes_container::ArchetypePages>'),
    ('ArchetypesContainer', 'pages'): (3, 'std::vec::Vec<archetype_data_page::ArchetypeDataPage>'),
    ('ArchetypesContainer', 'page_to_archetype'): (4, 'std::vec::Vec<usize>'),
    ('ArchetypesContainer', 'free_archetypes'): (5, 'std::vec::Vec<usize>'),
    ('ArchetypesContainer', 'free_pages'): (6, 'std::vec::Vec<usize>'),
    ('ArchetypePages', 'pages'): (0, 'std::vec::Vec<usize>'),
    ('ComponentType', 'id'): (0, 'std::any::TypeId'),
    ('ComponentType', 'size'): (1, 'usize'),
    ('ComponentType', 'align'): (2, 'usize'),
    ('ComponentType', 'name'): (3, '&str'),
    ('EntitiesContainer', 'gap_ids'): (0, 'std::vec::Vec<u32>'),
    ('EntitiesContainer', 'capacity'): (1, 'usize'),
    ('EntitiesContainer', 'entity_to_version'): (2, '*mut u32'),
    ('EntitiesContainer', 'entity_to_is_alive_bitvec'): (3, '*mut u32'),
    ('EntitiesContainer', 'next_free_id'): (4, 'u32'),
    ('EntityCreation', 'entity'): (0, 'entity::Entity'),
    ('EntityCreation', 'capacity_before'): (1, 'usize'),
    ('EntityCreation', 'capacity_after'): (2, 'usize'),
    ('Entity', 'id'): (0, 'u32'),
    ('Entity', 'version'): (1, 'u32'),
    ('EntityInArchetype', 'page_index'): (0, 'u32'),
    ('EntityInArchetype', 'index_in_page'): (1, 'u32'),
    ('OrderGroupContainer', 'group_ids'): (0, 'std::vec::Vec<std::any::TypeId>'),
    ('OrderGroupContainer', 'group_index_to_forward_links'): (1, 'std::vec::Vec<*mut u32>'),
    ('OrderGroupContainer', 'group_index_to_backward_links'): (2, 'std::vec::Vec<*mut u32>'),
    ('OrderGroupContainer', 'group_index_to_head'): (3, 'std::vec::Vec<u32>'),
    ('OrderGroupContainer', 'group_index_to_tail'): (4, 'std::vec::Vec<u32>'),
    ('OrderGroupContainer', 'entity_capacity'): (5, 'usize'),
    ('OrderGroupInfoMut', 'head'): (0, '&mut u32'),
    ('OrderGroupInfoMut', 'tail'): (1, '&mut u32'),
    ('OrderGroupInfoMut', 'forward_links'): (2, '*mut u32'),
    ('OrderGroupInfoMut', 'backward_links'): (3, '*mut u32'),
    ('ResourceStore', 'elements'): (0, '*mut std::mem::ManuallyDrop<T>'),
    ('ResourceStore', 'entities_container'): (1, 'entities_container::EntitiesContainer'),
    ('Store', 'entities_container'): (0, 'entities_container::EntitiesContainer'),
    ('Store', 'archetypes_container'): (1, 'archetypes_container::ArchetypesContainer'),
    ('Store', 'tag_container'): (2, 'tag_container::TagContainer'),
    ('Store', 'order_group_container'): (3, 'order_group_container::OrderGroupContainer'),
    ('Store', 'entity_to_page'): (4, '*mut u32'),
    ('Store', 'entity_to_index_in_page'): (5, '*mut u32'),
    ('Store', 'entity_has_archetype_bit_vec'): (6, '*mut u32'),
    ('TagContainer', 'tag_ids'): (0, 'std::vec::Vec<std::any::TypeId>'),
    ('TagContainer', 'entity_id_to_has_tag_bitvecs'): (1, 'std::vec::Vec<*mut u32>'),
    ('TagContainer', 'entity_capacity'): (2, 'usize'),
    ('ReadonlyAccess', '_read'): (0, 'std::marker::PhantomData<TRead>'),
    ('WriteAccess', '_write'): (0, 'std::marker::PhantomData<TWrite>'),
    ('ReadWriteAccess', '_read'): (0, 'std::marker::PhantomData<TRead>'),
    ('ReadWriteAccess', '_write'): (1, 'std::marker::PhantomData<TWrite>'),
    ('ComponentQuery', 'page_views'): (0, 'std::vec::Vec<query::component_page_iter_view::ComponentPageIterView<T>>'),
    ('ComponentsQueryIter', 'store'): (0, '&store::Store'),
    ('ComponentsQueryIter', 'page_views'): (1, '&[query::component_page_iter_view::ComponentPageIterView<T>]'),
    ('ComponentsQueryIter', 'current_page_iter'): (2, "query::component_page_iter::ComponentPageIter<'_, T>"),
    ('ComponentsQueryIter', 'current_page_index'): (3, 'usize'),
    ('ComponentsQueryIter', 'queried_entities_count'): (4, 'usize'),
    ('WithEntitiesIter', 'source_iter'): (0, "query::component::ComponentsQueryIter<'_, T>"),
    ('WithEntitiesIter', 'entities_versions'): (1, '*const u32'),
    ('FilterTagIter', 'source_iter'): (0, "query::component::WithEntitiesIter<'_, T>"),
    ('FilterTagIter', 'entity_to_has_tag'): (1, '*const u32'),
    ('OrderedComponentQuery', 'index_in_page_ranges'): (0, 'std::vec::Vec<std::ops::Range<u32>>'),
    ('OrderedComponentQuery', 'range_to_page_views'): (1, 'std::vec::Vec<query::component_page_iter_view::ComponentPageIterView<T>>'),
    ('OrderedComponentQuery', 'phantom_order_group'): (2, 'std::marker::PhantomData<O>'),
    ('OrderedComponentQueryIter', 'store'): (0, '&store::Store'),
    ('OrderedComponentQueryIter', 'entity_ranges'): (1, '&[std::ops::Range<u32>]'),
    ('OrderedComponentQueryIter', 'range_pages'): (2, '&[query::component_page_iter_view::ComponentPageIterView<T>]'),
    ('OrderedComponentQueryIter', 'current_range_index'): (3, 'u32'),
    ('OrderedComponentQueryIter', 'next_range_index'): (4, 'u32'),
    ('OrderedComponentQueryIter', 'current_index_in_page'): (5, 'u32'),
    ('OrderedComponentQueryIter', 'next_offset_from_range'): (6, 'u32'),
    ('OrderedComponentQueryIter', 'len'): (7, 'usize'),
    ('WithEntitiesIter', 'source_iter'): (0, "query::ordered_component::OrderedComponentQueryIter<'_, T>"),
    ('WithEntitiesIter', 'entity_versions'): (1, '*const u32'),
    ('ComponentPageIter', 'view'): (0, 'query::component_page_iter_view::ComponentPageIterView<T>'),
    ('ComponentPageIter', 'next_entity_index'): (1, 'usize'),
    ('ComponentPageIter', '_lifetime'): (2, 'std::marker::PhantomData<&T>'),
    ('ComponentPageIterView', 'ptrs'): (0, '<T as query::access::ComponentQueryAccess>::PtrTuple'),
    ('ComponentPageIterView', 'entity_ids'): (1, '*const u32'),
    ('ComponentPageIterView', 'entity_count'): (2, 'usize'),
    ('EntityComponentQuery', 'entity_index_ranges'): (0, 'std::vec::Vec<std::ops::Range<usize>>'),
    ('EntityComponentQuery', 'range_to_page_views'): (1, 'std::vec::Vec<query::component_page_iter_view::ComponentPageIterView<T>>'),
    ('EntityComponentQueryIter', 'entity_to_index_in_page_ptr'): (0, '*const u32'),
    ('EntityComponentQueryIter', 'entities'): (1, '&[entity::Entity]'),
    ('EntityComponentQueryIter', 'entity_ranges'): (2, '&[std::ops::Range<usize>]'),
    ('EntityComponentQueryIter', 'range_pages'): (3, '&[query::component_page_iter_view::ComponentPageIterView<T>]'),
    ('EntityComponentQueryIter', 'current_entity_index'): (4, 'usize'),
    ('EntityComponentQueryIter', 'next_range_index'): (5, 'usize'),
    ('EntityComponentQueryIter', 'next_offset_from_range'): (6, 'usize'),
    ('WithEntitiesIter', 'source_iter'): (0, "query::entity_component::EntityComponentQueryIter<'_, T>"),
}
