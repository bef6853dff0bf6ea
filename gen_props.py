#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable in diffs)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Entity handles are unique and alive exactly until destroyed",
  "Every handle a store returns differs from every handle it returned before, no two live handles share an id, and a handle is reported alive from its creation until it is destroyed and never again afterwards. Creating, destroying or changing one entity never changes whether any other handle is alive, however often ids are recycled (up to 2^32 reuses of one id) and however often the store grows.",
  ["histories","inputs"],"Every sequence of creations (with and without components) and destructions of live entities, from every initial capacity, any population size and any number of id reuses.",
  "The tests create at most 33 entities and recycle one id once; free-id reuse order, tail-id rollback, growth across 32-bit words and long version histories are untouched.",
  ["src/entities_container.rs","src/entity.rs","src/bitvec_utils.rs","src/mem_utils.rs","src/store.rs"],
  [("recycled-id list and tail-id rollback","src/entities_container.rs"),("version bump on creation","src/entities_container.rs"),("alive bit per id","src/bitvec_utils.rs"),("growth of the per-id arrays","src/store.rs")],
  [("version per id","generation of the id's latest entity","src/entities_container.rs"),("alive bits","which ids are occupied","src/entities_container.rs"),("free ids","ids to hand out again","src/entities_container.rs")],
  ["Store::create_entity","Store::create_entity_with_archetype","Store::destroy_entity","Store::is_alive"])

p("C02","A component reads back the last value written to it, and only that",
  "For every live entity and every component it has that was written at least once, a read through any access path (single or combined component access, queries) returns exactly the value most recently written to that entity's component through any path. No operation on other entities, and no change of the entity's own other components, tags or order, alters that value, whether or not storage is moved, compacted, recycled or grown.",
  ["histories","inputs"],"Every history of creations, destructions, component additions/removals and writes over any mix of component types (any size or alignment that is accepted), population and capacity; tuples name pairwise different types.",
  "The tests move a value once between two archetypes and compact one four-entity page; page reuse by another archetype, multi-page archetypes, archetype-slot reuse and mixed sizes are not reached.",
  ["src/store.rs","src/archetypes_container.rs","src/archetype_data_page.rs","src/archetype_layout.rs","src/archetype.rs","src/component_tuple.rs"],
  [("swap-remove inside a page and index fix-up","src/archetype_data_page.rs, src/store.rs"),("copy of the common columns on an archetype change","src/archetype_data_page.rs"),("page and archetype free lists","src/archetypes_container.rs"),("column offsets","src/archetype_layout.rs")],
  [("entity to (page, row)","where an entity's components live","src/store.rs"),("page to archetype","how a page is laid out","src/archetypes_container.rs")],
  ["Store::add_components","Store::get_components_refs","Store::get_components_refs_mut","queries"])

p("C03","An entity has exactly the components its history gave it",
  "At every moment a live entity's component set is the one it was created with, plus every type added, minus every type removed since (an entity left with no component behaves like one created without any; removing absent types and adding present ones keep the set). Combined access returns a result exactly when the handle is alive and all requested types are in the set, and the reported archetype lists exactly that set with the right sizes and alignments (none for an empty set or a dead handle).",
  ["histories","inputs"],"Every history of component additions and removals with tuples of 1 to 12 pairwise different types over any number of entities and archetypes; archetypes whose components each fit an equal share of a page.",
  "The tests add or remove on a single entity in a fresh store; recycled archetype slots, repeated or overlapping removals, removing the last component and recycled ids are not covered.",
  ["src/store.rs","src/archetype_builder.rs","src/archetypes_container.rs","src/archetype.rs","src/component_tuple.rs"],
  [("archetype lookup / slot reuse","src/archetypes_container.rs"),("union and difference of component sets","src/archetype_builder.rs"),("has-archetype bit","src/store.rs")],
  None,["Store::get_entity_archetype","Store::get_components_refs","Store::is_valid_entity_with_archetype"])

p("C04","A component query visits every matching entity exactly once",
  "Iterating a component query (read, write or read-write) yields each live entity whose component set includes all requested types exactly once and nothing else, each item referring to that entity's own current component values. With entities attached, each item is paired with the handle of the entity it belongs to, and what is written through a write query is what later reads of that entity return.",
  ["histories","inputs"],"Every store state reachable by creations, destructions and component changes, every requested tuple of 1 to 12 pairwise different types (read and write parts disjoint), one query being iterated mutably at a time.",
  "The tests query at most ten entities in at most two archetypes on never-recycled pages; emptied pages, recycled archetype slots, many pages and handle pairing across page borders are not reached.",
  ["src/query/component.rs","src/query/component_page_iter.rs","src/query/component_page_iter_view.rs","src/query/access.rs","src/archetypes_container.rs","src/component_tuple.rs"],
  [("archetype matching and page collection","src/query/component.rs"),("advance from page to page","src/query/component.rs"),("row pointers and current id","src/query/component_page_iter.rs")],
  None,["Store::component_query_iter","ComponentsQueryIter::with_entities"])

p("C05","Tags are per entity and a tag-filtered query yields exactly the tagged",
  "An entity carries a tag exactly if the tag was added to it and neither removed nor the entity destroyed since; a handle never inherits tags from an earlier entity with the same id, and tags of other entities or of other tag types are never affected, whatever the growth of the store. Filtering a component query by a tag that the store has seen yields exactly the matching entities that carry it, however many untagged entities lie between them.",
  ["histories","inputs"],"Every history of tag additions/removals over any number of tag types and entities, interleaved with creation, destruction and growth; filters on tag types added at least once to the store (others are refused by panic).",
  "The tests use one entity and two tags, never destroy a tagged entity, never grow a store with tags and never call filter_tag.",
  ["src/tag_container.rs","src/query/component.rs","src/bitvec_utils.rs","src/store.rs"],
  [("one bit per entity and tag type","src/tag_container.rs"),("clear on destroy","src/tag_container.rs, src/store.rs"),("growth of the bit sets","src/tag_container.rs"),("filter iterator","src/query/component.rs")],
  None,["Store::has_tag","WithEntitiesIter::filter_tag"])

p("C06","An entity-list query visits the valid listed entities in list order",
  "Iterating an entity-list query over a list of handles issued by the store yields, in list order and once per occurrence, exactly those listed handles that are alive and whose component set includes all requested types, each with references to its own components; every other listed handle (dead, without components, lacking a type) is skipped. With entities attached, the paired handle is the listed one.",
  ["histories","inputs"],"Every list (any length, order, repetition; live, dead, recycled, component-less handles mixed) over every reachable store state; repetitions only with read access; read and write parts disjoint.",
  "The tests use two lists without dead, repeated, recycled or component-less handles.",
  ["src/query/entity_component.rs","src/store.rs","src/entities_container.rs"],
  [("grouping of consecutive list entries into same-page ranges","src/query/entity_component.rs"),("validity test per entry","src/query/entity_component.rs")],
  None,["Store::entity_component_query_iter","WithEntitiesIter"])

p("C07","Each order group is the sequence its history built",
  "For every order group, first, last, next and previous describe one finite sequence without repetition that equals the result of applying the history as list operations: append at the end, insert directly after or before a member, remove, and removal on destruction. Entities outside the group have neither next nor previous, groups are independent of each other, and the sequences survive growth of the store.",
  ["histories","inputs"],"Every history of append / insert-next / insert-previous / remove / destroy / create over any number of groups and entities, where an inserted entity is not yet in the group and the anchor is another entity that is.",
  "The tests build lists of three entities in one group and never grow a store that already has groups, insert around borders after removals, or recycle ids.",
  ["src/order_group_container.rs","src/store.rs"],
  [("forward/backward link arrays with head and tail per group","src/order_group_container.rs"),("removal from all groups on destroy","src/store.rs"),("growth of the link arrays","src/order_group_container.rs")],
  None,["Store::get_first_entity_ordered_by","Store::get_last_entity_ordered_by","Store::get_next_entity_ordered_by","Store::get_previous_entity_ordered_by"])

p("C08","An ordered query follows the group order and skips the non-matching",
  "Iterating an ordered query yields exactly the members of the order group that have all requested components, in the group's order and once each, with references to their own components; members that lack a requested type or have no component at all are skipped. With entities attached, each item is paired with the handle of the entity whose components it holds.",
  ["histories","inputs"],"Every reachable combination of group sequence and storage placement (members spread over pages and archetypes in any permutation), every requested tuple; read and write parts disjoint.",
  "The tests use one group whose members have the same page order as group order, so runs never break and the second page of a run sequence is never reached.",
  ["src/query/ordered_component.rs","src/order_group_container.rs","src/archetypes_container.rs"],
  [("run detection over consecutive rows of one page","src/query/ordered_component.rs"),("pairing with entity ids of the run's page","src/query/ordered_component.rs")],
  None,["Store::ordered_query_iter","WithEntitiesIter"])

p("C09","A resource store gives back its values and drops each exactly once",
  "A live resource handle always indexes the very value stored under it (as last modified through it), whatever else is created, released or grown; releasing returns that value to the caller and ends the handle. Every value is dropped exactly once: by the caller after release, or when the store is dropped, and never while it is still held.",
  ["histories","inputs"],"Every history of create / index / index-mut / replace / release with live handles, then dropping the store, for any value type (zero-sized, heap-owning, over-aligned) and any initial capacity including none.",
  "The tests create one value, or 100 without releases, in stores that never grow; recycled slots, growth with live values and mixed release/drop are not covered.",
  ["src/resource_store.rs","src/entities_container.rs","src/mem_utils.rs"],
  [("manual ownership of slots","src/resource_store.rs"),("drop of occupied slots","src/resource_store.rs"),("growth by bitwise move","src/mem_utils.rs")],
  None,["ResourceStore::create","ResourceStore::release","Index/IndexMut","Drop of the value"])

p("C10","No sequence of valid calls causes undefined behaviour",
  "No history of calls that respects the documented preconditions reads or writes outside live allocations, uses freed or uninitialised memory, forms misaligned or dangling references, violates allocator contracts or trips any other undefined behaviour, on any store, query or resource store and in any build profile. Preconditions: handles come from the same store and, where required, are alive; component tuples name different types; a component is written before it is read; mutable access is exclusive.",
  ["histories","inputs","configurations"],"All valid-use histories over all public entry points, any initial capacity (a store's is positive, a resource store's any), component size/alignment and population.",
  "The tests run without any sanitizer on tiny histories; the crate is built on raw pointers, unchecked indexing and hand-written allocation.",
  ["src/mem_utils.rs","src/bitvec_utils.rs","src/archetype_data_page.rs","src/archetype_layout.rs","src/component_tuple.rs","src/entities_container.rs","src/resource_store.rs","src/order_group_container.rs","src/tag_container.rs","src/query/component_page_iter.rs","src/query/entity_component.rs","src/query/ordered_component.rs","src/archetype.rs"],
  [("raw allocation, reallocation and release","src/mem_utils.rs"),("unchecked indexing by id, page and row","src/store.rs, src/archetypes_container.rs"),("page capacity from the layout","src/archetype_layout.rs, src/archetype_data_page.rs")],
  None,["every public call, under sanitizers and interpreters"])

p("C11","Component storage is aligned, in bounds and disjoint for any type mix",
  "For every archetype a store accepts, every component reference it hands out is aligned for its type, lies entirely inside one live allocation, and overlaps no other component of any entity. An archetype the store cannot lay out is refused with a panic that leaves existing entities and components intact; archetypes in which each component fits an equal share of a page (less alignment slack) are accepted.",
  ["inputs","histories"],"Every set of component types (any size including zero, alignment, number, type order), every population, including storage recycled from an archetype with another layout.",
  "The tests use five small types with alignment up to 16 and never fill a page or reuse one under another layout.",
  ["src/archetype_layout.rs","src/archetype_data_page.rs","src/archetypes_container.rs","src/mem_utils.rs"],
  [("rows per page and column offsets","src/archetype_layout.rs"),("page free-space test","src/archetype_data_page.rs"),("page reuse","src/archetypes_container.rs")],
  None,["addresses of the references returned by Store::get_components_refs and by queries"])

p("C12","Archetypes behave as sets of component types",
  "An archetype built by any combination and order of tuples, builder inclusions, exclusions, other archetypes and type lists denotes exactly the resulting set of types: membership, count, size/alignment of each member, index lookup, sameness, inclusion, exclusion and only-these tests agree with set algebra for arguments in any order without repetition. Archetypes that are the same hash equally, and a clone is the same as its source and outlives it.",
  ["inputs"],"All pairs and sequences of type subsets and all orders in which they are given; type lists in any order without repetition, non-empty results.",
  "The tests compare five hand-picked pairs of at most three types, and pass single-element lists where order cannot matter.",
  ["src/archetype.rs","src/archetype_builder.rs","src/component_type.rs","src/component_tuple.rs"],
  [("sorted id array with binary search","src/archetype.rs"),("builder set operations","src/archetype_builder.rs")],
  None,["Archetype::is_include","Archetype::is_exclude","Archetype::is_same_as","Archetype::is_include_ids","Archetype::is_exclude_ids","Archetype::is_include_only_ids","Archetype::find_component_index","Archetype::components_iter"])

p("C13","Storage is conserved: all freed on drop, none lost under churn",
  "After a store, query, archetype or resource store is dropped, every byte it allocated has been released exactly once with the layout it was allocated with, from whatever state it was dropped in. A store that keeps cycling through the same sequence of populations stops growing: its footprint is bounded by the peak population, not by the number of operations performed.",
  ["histories"],"All histories followed by a drop; all repeated grow/shrink cycles over a fixed set of archetypes, tags and groups, any number of repetitions.",
  "No test measures memory.",
  ["src/mem_utils.rs","src/bitvec_utils.rs","src/archetype.rs","src/archetype_data_page.rs","src/archetype_layout.rs","src/archetypes_container.rs","src/entities_container.rs","src/tag_container.rs","src/order_group_container.rs","src/resource_store.rs","src/store.rs"],
  [("Drop implementations with recorded capacities","all containers"),("page, archetype and id recycling","src/archetypes_container.rs, src/entities_container.rs")],
  None,["global allocator"])

p("C14","Misuse is refused by panic in debug builds and harms nothing",
  "In a build with debug assertions, destroying a dead handle or one whose id the store never had, indexing or releasing a dead resource handle, adding to an order group (by append, or next to / previous to another member) an entity that is already in it, and building an empty archetype each panic. After such a panic is caught, every other entity, component, tag, order group and resource is as it was before the call, and the store keeps working.",
  ["histories","inputs","fault_sequences"],"Every reachable state and every such misuse injected at every point of a history, followed by further valid operations.",
  "Four should_panic tests cover one state each and never look at the store after the panic; a group of one member and resources are not covered.",
  ["src/store.rs","src/entities_container.rs","src/order_group_container.rs","src/resource_store.rs","src/archetype.rs"],
  [("version and id validation","src/entities_container.rs"),("no-order assertion","src/order_group_container.rs"),("alive assertions","src/resource_store.rs")],
  None,["catch_unwind around the misusing call","full state comparison afterwards"])

p("C15","Dead handles are inert",
  "Through a handle whose entity was destroyed, even when its id now belongs to another live entity, every read (components, archetype, tag, next, previous, validity) reports nothing and every component, tag or order change has no effect on any entity or group; without debug assertions destroying it again has no effect either, and the null handle and handles whose id the store never had behave like dead ones. In particular the entity that now owns the id is neither observed nor changed.",
  ["histories","inputs"],"Every reachable state, every dead handle of the same store (id free or recycled any number of times), every operation (destruction only in builds without debug assertions, where it does not panic); dead handles in either position of an order insertion.",
  "One test reads components through a dead handle; recycled ids, tags, orders and writes through dead handles are not tested.",
  ["src/store.rs","src/tag_container.rs","src/order_group_container.rs","src/entities_container.rs"],
  [("liveness test before acting","src/store.rs, src/tag_container.rs, src/order_group_container.rs"),("version comparison","src/entities_container.rs")],
  None,["all Store methods taking an Entity"])

p("C16","Query iterators report their exact remaining length",
  "At every point of the iteration, the length a component query iterator or an ordered query iterator reports equals the number of items it will still yield, and its size hint agrees. In particular the initial length is the number of matching entities.",
  ["histories","inputs"],"Every reachable store state, every query and every number of items already consumed, including after exhaustion.",
  "The tests compare only the initial length, for a few entities on single pages, and never after consuming an item.",
  ["src/query/component.rs","src/query/ordered_component.rs"],
  [("precomputed entity count","src/query/component.rs, src/query/ordered_component.rs")],
  None,["ExactSizeIterator::len","Iterator::size_hint"])

p("C17","Query objects carry no state from one iteration to the next",
  "The result of iterating a query depends only on the store's current state: a query object used before, on the same or another store, fully or partly iterated, gives exactly what a fresh one gives. Iterating never changes the store beyond what is written through the yielded references, several read-only iterations may run interleaved without affecting each other, and an exhausted iterator keeps returning nothing.",
  ["histories","inputs"],"Every sequence of uses of one component, entity-list or ordered query object across mutations of one or several stores, with any amount of each iteration consumed.",
  "The tests use every query object exactly once and always to the end.",
  ["src/query/component.rs","src/query/entity_component.rs","src/query/ordered_component.rs"],
  [("caches cleared at the start of an iteration","src/query/*.rs"),("lifetimes tying iterators to store and query","src/query/*.rs")],
  None,["Store::component_query_iter","Store::entity_component_query_iter","Store::ordered_query_iter"])

p("C18","Initial capacity is invisible",
  "The same history of valid operations gives the same observable results (liveness, component sets and values, tags, orders, query results up to unspecified order) from any positive initial capacity, and stores fed different histories side by side do not influence each other. The reported capacity never shrinks and is never below the number of live entities.",
  ["histories","configurations"],"Every history and every pair of positive initial capacities; two or more stores operated in any interleaving.",
  "One test grows a store of one entity; no test compares capacities or uses two interacting stores with components, tags and orders.",
  ["src/store.rs","src/entities_container.rs","src/tag_container.rs","src/order_group_container.rs","src/bitvec_utils.rs","src/mem_utils.rs"],
  [("growth of each per-id array from old to new capacity","src/store.rs and containers")],
  None,["traces of the same history run on differently sized stores"])

p("C19","Debug and release builds behave alike on valid use",
  "For every history of valid operations the observable results are the same with and without debug assertions and at every optimisation level.",
  ["histories","configurations"],"Every valid-use history; unoptimised, optimised-with-assertions and release builds of the same source.",
  "The test suite runs in the debug profile only.",
  ["src/entities_container.rs","src/archetype_data_page.rs","src/order_group_container.rs","src/resource_store.rs","src/store.rs"],
  [("checks confined to debug assertions without side effects","all containers")],
  None,["digest of the trace of each history, compared between builds"])

p("C20","The derive macros accept exactly what may be a component or a tag",
  "Deriving Component is accepted for every non-generic, copyable struct with at least one field (named or positional, any visibility or attributes) and rejected for structs that are field-less or cannot be copied, enums and unions; deriving Tag is accepted for exactly the non-generic structs without fields, in unit, tuple or brace form. A type whose derive is accepted can be used as component respectively tag under its own name.",
  ["programs"],"All non-generic type definitions to which the two derive macros can be applied.",
  "The tests derive on a dozen well-formed types and never on one that must be rejected.",
  ["division_ecs_attributes/src/lib.rs","src/derived_traits.rs"],
  [("shape test on the parsed input","division_ecs_attributes/src/lib.rs")],
  None,["compiler verdict on generated type definitions, and behaviour of the accepted ones"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
