From 08d62c546e4c6388ed89629a4ffc7fec1223bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 01/41] fix: align component blocks and the chunk buffer
 properly

Block offsets were recorded before being aligned and padding was computed
as offset % align, so components after an odd-sized one were misaligned
and the last block could exceed the chunk. Over-aligned components also
need an over-aligned chunk buffer.
---
 include/co_ecs/archetype.hpp   | 53 ++++++++++++----------------------
 include/co_ecs/chunk.hpp       | 21 +++++++++-----
 include/co_ecs/detail/bits.hpp |  9 ++++++
 3 files changed, 41 insertions(+), 42 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..c4302c8 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -185,42 +185,29 @@ private:
     }
 
     auto add_block(std::size_t offset, const component_meta& meta) -> std::size_t {
-        const std::size_t size_in_bytes = _max_size * meta.type->size;
-        const std::size_t align = meta.type->align;
+        offset = detail::align_up(offset, meta.type->align);
 
         _blocks.emplace(meta.id, offset, meta);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
-
-        return offset;
+        return offset + _max_size * meta.type->size;
     }
 
     // Calculates the maximum size of individual components this chunk buffer can hold
     static auto get_max_size(auto&& components_meta) -> std::size_t {
-        // Calculate size of the following structure:
-        //
-        // struct {
-        //     component_a_t a;
-        //     component_b_t b;
-        //     component_c_t c;
-        //     ...
-        // };
-        //
-        auto aligned_size = aligned_components_size(components_meta);
-
-        // handle subtraction overflow - chunk size is insufficient to hold at least one such entity
-        if (aligned_size > chunk::chunk_bytes) [[unlikely]] {
-            throw insufficient_chunk_size{ aligned_size, chunk::chunk_bytes };
+        // handle chunk size that is insufficient to hold at least one such entity
+        if (auto size = aligned_components_size(components_meta, 1); size > chunk::chunk_bytes) [[unlikely]] {
+            throw insufficient_chunk_size{ size, chunk::chunk_bytes };
         }
 
-        // Remaining size for packed components
-        auto remaining_space = chunk::chunk_bytes - aligned_size;
+        // Calculate how much components we can pack ignoring padding between the blocks
+        auto max_size = chunk::chunk_bytes / packed_components_size(components_meta);
 
-        // Calculate how much components we can pack into remaining space
-        auto remaining_elements_count = remaining_space / packed_components_size(components_meta);
+        // Then account for the padding
+        while (aligned_components_size(components_meta, max_size) > chunk::chunk_bytes) {
+            max_size--;
+        }
 
-        // The maximum amount of entities we can hold is grater by 1 for which we calculated aligned_size
-        return remaining_elements_count + 1;
+        return max_size;
     }
 
     // Calculate size of packed structure of components
@@ -231,15 +218,13 @@ private:
             [](const auto& res, const auto& meta) { return res + meta.type->size; });
     }
 
-    // Calculate size of properly aligned structure of components
-    static auto aligned_components_size(auto&& components_meta) noexcept -> std::size_t {
-        auto begin = chunk::alloc_alignment;
-        auto end = begin;
+    // Calculate size of properly aligned blocks each holding count of components
+    static auto aligned_components_size(auto&& components_meta, std::size_t count) noexcept -> std::size_t {
+        std::size_t end{};
 
-        // Add single component element size accounting for its alignment
-        auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
-            end += meta.type->size;
+        auto add_elements = [&end, count](const component_meta& meta) {
+            end = detail::align_up(end, meta.type->align);
+            end += count * meta.type->size;
         };
 
         add_elements(component_meta::of<entity>());
@@ -247,7 +232,7 @@ private:
             add_elements(meta);
         }
 
-        return end - begin;
+        return end;
     }
 
     template<component_reference ComponentRef>
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..2fa7076 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -39,20 +39,16 @@ public:
     /// @brief Chunk size in bytes
     static constexpr std::size_t chunk_bytes = static_cast<const std::size_t>(16U * 1024); // 16 KB
 
-    /// @brief Block allocation alignment
+    /// @brief Minimum block allocation alignment
     static constexpr std::size_t alloc_alignment = alignof(entity);
 
-    /// @brief Chunk buffer type
-    struct alignas(alloc_alignment) chunk_buffer {
-        std::byte data[chunk_bytes];
-    };
-
     /// @brief Construct a new chunk object
     ///
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size),
+        _buffer(static_cast<std::byte*>(::operator new(chunk_bytes, buffer_alignment(blocks)))) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +90,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, chunk_bytes, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -255,6 +251,15 @@ public:
 private:
     friend class base_registry;
 
+    // The strictest alignment among all the blocks
+    static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        auto alignment = alloc_alignment;
+        for (const auto& [id, block] : blocks) {
+            alignment = std::max(alignment, block.meta.type->align);
+        }
+        return std::align_val_t{ alignment };
+    }
+
     constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
diff --git a/include/co_ecs/detail/bits.hpp b/include/co_ecs/detail/bits.hpp
index a7f4651..670815b 100644
--- a/include/co_ecs/detail/bits.hpp
+++ b/include/co_ecs/detail/bits.hpp
@@ -11,6 +11,15 @@ constexpr auto mod_2n(auto value, auto divisor) noexcept -> decltype(auto) {
     return value & (divisor - 1U);
 }
 
+/// @brief Round value up to a multiple of alignment=2^n
+///
+/// @param value Value
+/// @param alignment Power of 2 alignment
+/// @return decltype(auto) Result
+constexpr auto align_up(auto value, auto alignment) noexcept -> decltype(auto) {
+    return (value + (alignment - 1U)) & ~(alignment - 1U);
+}
+
 /// @brief Check if value is a power of 2
 /// @param value Power of two value
 /// @return True if power of two, false otherwise
-- 
2.43.0


From a2af6c6aaecce9c7f64b9c6b981274a3364a27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 02/41] fix: erasing from a non-last chunk always fills the
 hole from the last chunk

Erasing the last entry of a non-last chunk just popped it, so such chunks
shrank until empty, and an empty last chunk was then moved from.
---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 2fa7076..3ba527e 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -122,7 +122,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == &other && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From eaad7f9310134155e9e079c3297abd55e7eaff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 03/41] fix: do not leave a null archetype behind when a
 component set does not fit

A failed creation left an empty entry in the archetype map, which every
later view dereferenced, and an allocated entity without location.
---
 include/co_ecs/archetype.hpp     | 46 +++++++++++++-------------------
 include/co_ecs/base_registry.hpp |  2 +-
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index c4302c8..cc7d5b9 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -289,13 +289,7 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
-        if (!archetype) {
-            archetype = create_archetype(components);
-        }
-        assert((archetype->components().ids() == components.ids())
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype_impl(components.ids(), [&]() { return create_archetype(components); });
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -307,13 +301,8 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype_impl(_search_component_set,
+            []() { return create_archetype(component_meta_set::create<Components...>()); });
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -326,13 +315,8 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype_impl(_search_component_set,
+            [anchor_archetype]() { return create_archetype_added<Components...>(anchor_archetype); });
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -345,13 +329,8 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype_impl(_search_component_set,
+            [anchor_archetype]() { return create_archetype_removed<Components...>(anchor_archetype); });
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -390,6 +369,17 @@ public:
     }
 
 private:
+    // Creates the archetype before it becomes visible in the map, creation may throw
+    auto ensure_archetype_impl(const component_set& ids, auto&& create) -> archetype* {
+        auto iter = _archetypes.find(ids);
+        if (iter == _archetypes.end()) {
+            iter = _archetypes.emplace(ids, create()).first;
+        }
+        auto* archetype = iter->second.get();
+        assert((archetype->components().ids() == ids) && "Archetype components do not match the search request");
+        return archetype;
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..9942af9 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -142,8 +142,8 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
+        auto entity = allocate();
         auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
         set_location(entity.id(), location);
         return entity;
-- 
2.43.0


From 829d438193d6173f746872620cc6a4ca3dec1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 04/41] fix: clone and copy leave nothing behind when a
 component copy throws

Components copied before the throwing one were leaked, a chunk added for
the copy stayed empty (and was later moved from), and the handle allocated
for the new entity was lost; moving a dead entity lost a handle as well.
---
 include/co_ecs/archetype.hpp     | 11 ++++++++++-
 include/co_ecs/base_registry.hpp | 16 ++++++++++++++--
 include/co_ecs/chunk.hpp         | 30 +++++++++++++++++++++++-------
 3 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index cc7d5b9..a414cc4 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -119,7 +119,16 @@ public:
 
         assert((location.entry_index < chunk.size()) && "Entity location index exceeds chunk size");
 
-        auto entry_index = chunk.copy(location.entry_index, free_chunk);
+        std::size_t entry_index{};
+        try {
+            entry_index = chunk.copy(location.entry_index, free_chunk);
+        } catch (...) {
+            // do not leave an empty chunk behind
+            if (free_chunk.empty() && other._chunks.size() > 1) {
+                other._chunks.pop_back();
+            }
+            throw;
+        }
         auto new_location = entity_location{
             &other,
             other._chunks.size() - 1,
diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 9942af9..3f26a60 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -208,11 +208,12 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
+        ensure_alive(ent);
         return move(ent, dest, dest.allocate());
     }
 
     entity copy(entity ent, base_registry& dest) const {
-        return copy(ent, dest, dest.allocate());
+        return copy_allocated(ent, dest);
     }
 
     entity move(entity ent, base_registry& dest, placeholder_entity placeholder) {
@@ -257,7 +258,7 @@ protected:
     }
 
     entity clone(entity ent) {
-        return copy(ent, *this, allocate());
+        return copy_allocated(ent, *this);
     }
 
     entity clone(entity ent, placeholder_entity placeholder) {
@@ -265,6 +266,17 @@ protected:
     }
 
 private:
+    entity copy_allocated(entity ent, base_registry& dest) const {
+        ensure_alive(ent);
+        auto allocated = dest.allocate();
+        try {
+            return copy(ent, dest, allocated);
+        } catch (...) {
+            dest._entity_pool.recycle(allocated);
+            throw;
+        }
+    }
+
     constexpr void ensure_alive(const entity& ent) const {
         if (!alive(ent)) {
             throw entity_not_found{ ent };
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 3ba527e..7bbc1e7 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -169,15 +169,31 @@ public:
         assert((index < _size) && "Entity index exceeds chunk size");
         assert((!other_chunk.full()) && "Other chunk is full, cannot move entity to it");
         const std::size_t other_chunk_index = other_chunk._size;
-        for (const auto& [id, block] : *_blocks) {
-            const auto* type = block.meta.type;
-            if (!other_chunk._blocks->contains(id)) {
-                continue;
+        auto copied = _blocks->begin();
+        try {
+            for (; copied != _blocks->end(); ++copied) {
+                const auto& [id, block] = *copied;
+                const auto* type = block.meta.type;
+                if (!other_chunk._blocks->contains(id)) {
+                    continue;
+                }
+                auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
+                if (type->copy_construct) {
+                    type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+                }
             }
-            auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
-            if (type->copy_construct) {
-                type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+        } catch (...) {
+            // destroy what has been copied so far
+            for (auto iter = _blocks->begin(); iter != copied; ++iter) {
+                const auto& [id, block] = *iter;
+                const auto* type = block.meta.type;
+                if (!other_chunk._blocks->contains(id)) {
+                    continue;
+                }
+                type->destruct(
+                    other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size);
             }
+            throw;
         }
         other_chunk._size++;
         return other_chunk_index;
-- 
2.43.0


From 27f44af94f9ee4d4aebc24a5b208178980bafe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 05/41] fix: entity_ref has() and archetype() throw for dead
 entities, do not mark them noexcept

Both look up the entity and throw entity_not_found, which terminated the
process.
---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..e0f3042 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -368,7 +368,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -392,7 +392,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From 0d30864a32c0201a7eed527453b461eedd35e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 06/41] fix: construct a component before moving its entity to
 another archetype

Arguments referring to components of the registry were read after those
had been moved, and a throwing constructor left an unconstructed component
attached to the entity.
---
 include/co_ecs/entity_ref.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index e0f3042..76cd54e 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,11 +148,10 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
+        if (has<C>()) {
+            return get<C>();
         }
-        return *ptr;
+        return insert<C>(std::forward<decltype(args)>(args)...);
     }
 
     /// @brief Set component to an entity. It can either override a component value that is already assigned to an
@@ -175,11 +174,12 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
+        if (has<C>()) {
+            // the value is constructed before the component is looked up, its constructor may access the registry
+            C value{ std::forward<Args>(args)... };
+            get<C>() = std::move(value);
         } else {
-            *ptr = C{ std::forward<Args>(args)... };
+            insert<C>(std::forward<Args>(args)...);
         }
         return *this;
     }
@@ -343,6 +343,20 @@ public:
     }
 
 private:
+    // The value is constructed before the entity is moved to another archetype: the constructor may throw and args may
+    // refer to components of this or another entity
+    template<component C, typename... Args>
+    constexpr auto insert(Args&&... args) -> C& {
+        C value(std::forward<Args>(args)...);
+        auto [inserted, ptr] = _registry.get().template set_impl<C>(_entity);
+        if (inserted) {
+            std::construct_at(ptr, std::move(value));
+        } else {
+            *ptr = std::move(value);
+        }
+        return *ptr;
+    }
+
     std::reference_wrapper<base_registry> _registry;
     entity _entity;
 };
-- 
2.43.0


From 5a5095cf45b76c46c31f2c15658c91507c205e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 07/41] fix: take outstanding reservations into account when
 creating and recycling entities

Creating an entity with reserved, not yet synchronized entities around
handed out a reserved id again or an entity that is not alive; recycling
lost ids.
---
 include/co_ecs/detail/handle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..6100929 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,7 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        flush();
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -96,6 +97,7 @@ public:
     /// @brief Recycles a handle for reuse in future creations.
     /// @param handle Handle to recycle
     constexpr void recycle(H handle) {
+        flush();
         if (!alive(handle)) {
             return;
         }
-- 
2.43.0


From c0e82c8529549aa2fe758f41982bc03bf0a7cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 08/41] fix: keep the command buffers of exited threads alive
 until they are flushed

Flushing dereferenced the destroyed thread-local buffers of threads that
had recorded commands and exited.
---
 include/co_ecs/command.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..c156fd5 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -18,8 +18,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local std::shared_ptr<command_buffer> buf = create();
+        return *buf;
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,22 +28,31 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // drop the buffers of threads that have exited
+        std::erase_if(_command_buffers, [](auto& command_buffer) {
+            return command_buffer.use_count() == 1 && command_buffer->_commands.empty();
+        });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
+    static inline std::vector<std::shared_ptr<command_buffer>>
         _command_buffers; ///< Vector containing all thread-local command buffers.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
+    command_buffer() = default;
+
+    static auto create() -> std::shared_ptr<command_buffer> {
+        std::shared_ptr<command_buffer> buf{ new command_buffer };
         std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
+        _command_buffers.push_back(buf);
+        return buf;
     }
 
     template<typename T>
-- 
2.43.0


From 87f894ce89cfa04a9c9c46e85151eb9ad5b4db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 09/41] fix: release the staged component once a recorded set
 is applied

The staging entity was never destroyed, so every recorded set leaked one.
---
 include/co_ecs/command.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index c156fd5..26ea3c6 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -177,8 +177,10 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                auto staged = staging_registry.get_entity(staging_entity);
+                C value = std::move(staged.template get<C>());
+                staged.destroy();
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(value));
             });
         return *this;
     }
-- 
2.43.0


From ccf03eee9d18476b148c6045db426aab88de4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 10/41] fix: finish a task exactly once and publish its effects
 to the waiter

Two children finishing together could both see the counter at zero and
finish the parent twice, the completed task was accessed after it could be
reused, and relaxed ordering did not make a task's writes visible to the
thread waiting for it.
---
 include/co_ecs/thread_pool/task.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..02acb02 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,11 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
+        // once completed this task may be reused, do not access it anymore
+        auto* parent = _parent;
 
-        if (is_completed() && _parent) {
-            _parent->finish();
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From b11fbecc6d623a245a6232c9584137d688699bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 11/41] fix: do not reuse the storage of a task that is still
 in flight

A long running task whose own worker allocated more than max_tasks tasks
meanwhile (nested parallel_for) was overwritten.
---
 include/co_ecs/thread_pool/task.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 02acb02..db09a63 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <atomic>
 #include <functional>
+#include <stdexcept>
 
 namespace co_ecs {
 
@@ -67,13 +68,24 @@ public:
     /// @param parent Optional pointer to a parent task.
     /// @return Pointer to the newly allocated task.
     static task_t* allocate(auto&& func, task_t* parent = nullptr) {
-        auto& task = _tasks_array[_task_counter++ & (max_tasks - 1)];
-        task.~task_t();
-        new (&task) task_t(std::forward<decltype(func)>(func), parent);
-        return &task;
+        auto* task = next_task();
+        // skip tasks that are still in flight
+        for (std::size_t i = 1; !task->is_completed(); i++) {
+            if (i == max_tasks) {
+                throw std::length_error("Maximum number of tasks exceeded");
+            }
+            task = next_task();
+        }
+        task->~task_t();
+        new (task) task_t(std::forward<decltype(func)>(func), parent);
+        return task;
     }
 
 private:
+    static task_t* next_task() noexcept {
+        return &_tasks_array[_task_counter++ & (max_tasks - 1)];
+    }
+
     static inline thread_local std::size_t _task_counter;                  ///< Counter to index into the tasks array.
     static inline thread_local std::array<task_t, max_tasks> _tasks_array; ///< Circular buffer of tasks.
 };
-- 
2.43.0


From 39051e7a96ec22951880fedc0cdd4efb78032639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 12/41] fix: publish the grown array of the work stealing queue
 with release order

A thief could obtain the new array pointer without synchronizing with the
initialization of the array.
---
 include/co_ecs/detail/work_stealing_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..ab046db 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,7 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
@@ -85,7 +85,7 @@ public:
         std::optional<T> item;
 
         if (top < bottom) {
-            auto* array = _array.load(std::memory_order_consume);
+            auto* array = _array.load(std::memory_order_acquire);
             item = array->pop(top);
             if(!_top.compare_exchange_strong(top, top + 1, std::memory_order_seq_cst, std::memory_order_relaxed)) {
                 return std::nullopt;
-- 
2.43.0


From 6b1277ddc13cc594c7bf1487dea812a83c5923b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 13/41] fix: creating an executor does not remove the systems
 from the schedule

A second executor created from the same schedule ran nothing but the main
thread systems.
---
 include/co_ecs/system/stage.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..0c7b28f 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -74,12 +74,18 @@ public:
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
         std::vector<vector_of_executors_t> executors{};
 
-        while (!_systems.empty()) {
+        // systems that are not yet assigned to a batch
+        std::vector<system_interface*> systems;
+        for (auto& system : _systems) {
+            systems.push_back(system.get());
+        }
+
+        while (!systems.empty()) {
             access_pattern_t access_pattern;
             vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
+            for (size_t i = 0; i < systems.size();) {
+                auto executor = systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
                 if (!access_pattern.allows(system_access_pattern)) {
@@ -89,7 +95,7 @@ public:
 
                 access_pattern &= system_access_pattern;
                 executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                systems.erase(systems.begin() + i);
             }
         }
 
-- 
2.43.0


From 51211e7f7d4f83fadb47dc04dba404fa1a23c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 14/41] fix: do not run registry writing systems together with
 command writers

Recording commands reserves entities, which races with creating or
destroying entities through the registry; a batch reading the whole
registry also admitted a registry writer.
---
 include/co_ecs/system/access.hpp | 23 ++++++++++++++++-------
 include/co_ecs/system/system.hpp |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index f3dc4b5..0c34564 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -6,11 +6,12 @@ namespace co_ecs {
 
 /// @brief Enumeration representing the type of access.
 ///
-/// This enum defines the different types of access permissions: none, read, and write.
+/// This enum defines the different types of access permissions: none, reserve, read, and write.
 enum access_type {
-    none, ///< No access.
-    read, ///< Read access.
-    write ///< Write access.
+    none,    ///< No access.
+    reserve, ///< Reserves entities in the registry, does not access any components.
+    read,    ///< Read access.
+    write    ///< Write access.
 };
 
 /// @brief Class representing an access pattern for components.
@@ -42,7 +43,8 @@ public:
     /// @param other The other access pattern to check against.
     /// @return True if this access pattern allows the other, false otherwise.
     [[nodiscard]] auto allows(const access_pattern_t& other) const noexcept -> bool {
-        if ((writes_all() && other.reads_all()) || (reads_all() && !other.reads_all())) {
+        if ((writes_all() && other.accesses_registry()) || (accesses_registry() && other.writes_all())
+            || (reads_all() && !other.reads_all())) {
             return false;
         }
 
@@ -55,6 +57,13 @@ public:
         return true;
     }
 
+    /// @brief Checks if this access pattern accesses the registry in any way.
+    ///
+    /// @return True if this access pattern accesses the registry, false otherwise.
+    [[nodiscard]] auto accesses_registry() const noexcept -> bool {
+        return _registry_access != access_type::none;
+    }
+
     /// @brief Checks if this access pattern writes to all components.
     ///
     /// @return True if this access pattern writes to all components, false otherwise.
@@ -67,7 +76,7 @@ public:
     /// @return True if this access pattern reads from all components, false otherwise.
 
     [[nodiscard]] auto reads_all() const noexcept -> bool {
-        return _registry_access != access_type::none;
+        return _registry_access >= access_type::read;
     }
 
     /// @brief Checks if this access pattern writes to a specific component.
@@ -94,7 +103,7 @@ public:
     /// @param id The ID of the component.
     /// @return True if this access pattern reads from the component, false otherwise.
     [[nodiscard]] auto reads(component_id_t id) const noexcept -> bool {
-        if (_registry_access != access_type::none) {
+        if (reads_all()) {
             return true;
         }
 
diff --git a/include/co_ecs/system/system.hpp b/include/co_ecs/system/system.hpp
index 431a50d..b03740c 100644
--- a/include/co_ecs/system/system.hpp
+++ b/include/co_ecs/system/system.hpp
@@ -279,7 +279,7 @@ public:
     ///
     /// @return The access pattern of the entity.
     auto access_pattern() const -> access_pattern_t {
-        return access_pattern_t{};
+        return access_pattern_t(access_type::reserve);
     }
 
 private:
-- 
2.43.0


From 19c5797cc8cbb5cd15c388b3d6db05b1ab585b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 15/41] fix: run main thread systems once per run and not
 together with conflicting systems

They ran once per batch of the stage (never without other systems) and at
the same time as any worker system, whatever both access.
---
 include/co_ecs/system/stage.hpp | 62 +++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 0c7b28f..139c7c4 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -9,6 +9,13 @@ namespace co_ecs {
 /// This type alias defines a vector of unique pointers to system executor interfaces.
 using vector_of_executors_t = std::vector<std::unique_ptr<system_executor_interface>>;
 
+/// @brief Systems of a stage that are executed at the same time.
+struct system_batch {
+    vector_of_executors_t executors;             ///< Systems executed by the thread pool.
+    vector_of_executors_t main_thread_executors; ///< Systems executed one by one in the main thread.
+    access_pattern_t access_pattern;             ///< Combined access pattern of the executors.
+};
+
 class stage_executor;
 class schedule;
 
@@ -72,7 +79,7 @@ public:
     /// @param user_context Optional user context.
     /// @return Unique pointer to the created stage executor.
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
-        std::vector<vector_of_executors_t> executors{};
+        std::vector<system_batch> batches{};
 
         // systems that are not yet assigned to a batch
         std::vector<system_interface*> systems;
@@ -81,31 +88,40 @@ public:
         }
 
         while (!systems.empty()) {
-            access_pattern_t access_pattern;
-            vector_of_executors_t& executor_set = executors.emplace_back();
+            system_batch& batch = batches.emplace_back();
 
             for (size_t i = 0; i < systems.size();) {
                 auto executor = systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
-                if (!access_pattern.allows(system_access_pattern)) {
+                if (!batch.access_pattern.allows(system_access_pattern)) {
                     ++i;
                     continue;
                 }
 
-                access_pattern &= system_access_pattern;
-                executor_set.emplace_back(std::move(executor));
+                batch.access_pattern &= system_access_pattern;
+                batch.executors.emplace_back(std::move(executor));
                 systems.erase(systems.begin() + i);
             }
         }
 
-        // Main thread systems
-        vector_of_executors_t main_thread_executors;
+        // Main thread systems are assigned, keeping their order, to the first batch they don't conflict with
+        std::size_t batch_index = 0;
         for (auto& system : _main_thread_systems) {
-            main_thread_executors.emplace_back(system->create_executor(registry, user_context));
+            auto executor = system->create_executor(registry, user_context);
+            auto system_access_pattern = executor->access_pattern();
+
+            while (batch_index < batches.size()
+                   && !batches[batch_index].access_pattern.allows(system_access_pattern)) {
+                ++batch_index;
+            }
+            if (batch_index == batches.size()) {
+                batches.emplace_back();
+            }
+            batches[batch_index].main_thread_executors.emplace_back(std::move(executor));
         }
 
-        return std::make_unique<stage_executor>(_name, std::move(executors), std::move(main_thread_executors));
+        return std::make_unique<stage_executor>(_name, std::move(batches));
     }
 
 private:
@@ -146,32 +162,27 @@ public:
     /// @brief Constructs a new stage executor.
     ///
     /// @param name Name of the stage.
-    /// @param executor_set Set of system executors.
-    /// @param main_thread_executors Main thread system executors.
-    explicit stage_executor(std::string_view name,
-        std::vector<vector_of_executors_t> executor_set,
-        vector_of_executors_t main_thread_executors) :
-        _executor_set(std::move(executor_set)), _main_thread_executors(std::move(main_thread_executors)), _name(name) {
+    /// @param batches Batches of system executors.
+    explicit stage_executor(std::string_view name, std::vector<system_batch> batches) :
+        _batches(std::move(batches)), _name(name) {
     }
 
     /// @brief Runs all systems in the stage.
     void run() {
-        for (auto& executors : _executor_set) {
-            execute_batch(executors);
+        for (auto& batch : _batches) {
+            execute_batch(batch);
         }
     }
 
 private:
     /// @brief Executes a batch of systems.
     ///
-    /// @tparam WorkBatch Type of the work batch.
-    /// @param work_batch The batch of work to be executed.
-    template<typename WorkBatch>
-    void execute_batch(WorkBatch&& work_batch) {
+    /// @param batch The batch of systems to be executed.
+    void execute_batch(system_batch& batch) {
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
 
-        for (auto& work_item : work_batch) {
+        for (auto& work_item : batch.executors) {
             auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
             if (!parent) {
                 parent = task;
@@ -179,7 +190,7 @@ private:
         }
 
         // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
+        for (auto& executor : batch.main_thread_executors) {
             executor->run();
         }
 
@@ -189,8 +200,7 @@ private:
     }
 
 private:
-    std::vector<vector_of_executors_t> _executor_set;
-    vector_of_executors_t _main_thread_executors;
+    std::vector<system_batch> _batches;
     std::string_view _name;
 };
 
-- 
2.43.0


From 3aee36eefc77fe85582f3fe438edd01f03cf5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 16/41] fix: stack allocator must not allocate past the end of
 a full buffer

The remaining space underflowed when less than a header was left.
---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..3ea32b7 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -52,6 +52,11 @@ public:
         assert(is_power_of_2(alignment) && "Alignment must be a power of two");
         assert((alignment <= std::numeric_limits<padding_t>::max()) && "Alignment is out of range");
 
+        // No space even for the allocation header
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
+
         // Get the top of the stack
         char* top = _start + _offset;
         // Get the pointer to the top + 1 allocation header
-- 
2.43.0


From 550f01fc2fc63a327c0ad931477c95a7748198c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 17/41] fix: moving a stack allocator carries its offset along

The new allocator handed out memory that was still allocated.
---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index 3ea32b7..3b050f4 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
-- 
2.43.0


From 2eb6ae5fc03d6751bb5068f5702c90dc9d6be539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 18/41] fix: hash table range constructor sizes its bucket
 metadata by bucket_count

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..e934813 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,7 +326,7 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
+        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
             emplace_or_assign_impl(std::move(*first));
-- 
2.43.0


From 75bf05ee3bf13ed557e8d0a77bf7ffb713c6e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 19/41] fix: hash table range constructor copies the range
 instead of moving from it

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index e934813..de7f968 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -329,7 +329,7 @@ public:
         _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
-            emplace_or_assign_impl(std::move(*first));
+            emplace_or_assign_impl(*first);
         }
     }
 
-- 
2.43.0


From bb16ebcb59484845f2c547106334e0bf527ce22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 20/41] fix: hash table erase destroys the element in the
 vacated bucket

A moved-from element was left there and later overwritten by construction,
its destructor never ran.
---
 include/co_ecs/detail/hash_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index de7f968..2abe0a4 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -731,6 +731,9 @@ private:
             info = n_info;
         }
 
+        // destroy the moved-from element in the vacated bucket
+        allocator_traits::destroy(_buckets.allocator(), ptr);
+
         const size_type threshold = approx_40_percent(bucket_size);
         if (_size > default_bucket_count && _size < threshold) {
             const auto new_size = bucket_size >> size_type{ 1 };
-- 
2.43.0


From 0ff402e840ce3bb9f28b0789c292934c71b380d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 21/41] fix: hash table iterator post-increment did not compile

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 2abe0a4..22bcc0a 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -221,7 +221,7 @@ private:
         /// @return iterator_impl& Iterator
         constexpr auto operator++(int) noexcept -> iterator_impl {
             iterator_impl tmp(*this);
-            *this ++;
+            ++*this;
             return tmp;
         }
 
-- 
2.43.0


From 864ac002e776da5499f897e818a669612d986224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 22/41] fix: hash table reserve rounds the bucket count up to a
 power of two

Buckets are selected by masking, with any other count only some buckets
were used and insertion could probe forever.
---
 include/co_ecs/detail/hash_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 22bcc0a..25c3fd3 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <bit>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
@@ -612,7 +613,8 @@ public:
             return;
         }
 
-        hash_table h_table(new_size, _hash, _equal, _buckets.allocator());
+        // the bucket count must be a power of two
+        hash_table h_table(std::bit_ceil(new_size), _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
             h_table._emplace_impl(std::move(value));
-- 
2.43.0


From c5eefeaeffd00ab8044634834fae98196018fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 23/41] fix: sparse table counts its elements in size_t

With all 256 keys of an 8-bit key type the size wrapped around to zero.
---
 include/co_ecs/detail/sparse_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..f8c5c1b 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -215,7 +215,7 @@ public:
         } else {
             _dense.emplace_back(key);
         }
-        _sparse[key] = _size;
+        _sparse[key] = static_cast<key_type>(_size);
         ++_size;
         return std::pair(_dense.begin() + _sparse[key], true);
     }
@@ -306,7 +306,7 @@ private:
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-    key_type _size{};
+    size_type _size{};
     size_t _sparse_capacity{};
 };
 
-- 
2.43.0


From f48c50bb45570290f87089979c8781cd52903cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 24/41] fix: a moved-from sparse table is empty and can be
 reused

It kept the size and capacity of the moved vectors and accessed them out
of bounds.
---
 include/co_ecs/detail/sparse_table.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index f8c5c1b..2aa6eae 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -2,6 +2,7 @@
 
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace co_ecs::detail {
@@ -38,7 +39,10 @@ public:
     /// @brief Move constructor
     ///
     /// @param rhs Sparse container to move from
-    constexpr sparse_table(sparse_table&& rhs) noexcept = default;
+    constexpr sparse_table(sparse_table&& rhs) noexcept :
+        _dense(std::exchange(rhs._dense, {})), _sparse(std::exchange(rhs._sparse, {})),
+        _size(std::exchange(rhs._size, 0)), _sparse_capacity(std::exchange(rhs._sparse_capacity, 0)) {
+    }
 
     /// @brief Copy constructor
     ///
@@ -49,7 +53,15 @@ public:
     ///
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
-    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& = default;
+    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
+        if (this != &rhs) {
+            _dense = std::exchange(rhs._dense, {});
+            _sparse = std::exchange(rhs._sparse, {});
+            _size = std::exchange(rhs._size, 0);
+            _sparse_capacity = std::exchange(rhs._sparse_capacity, 0);
+        }
+        return *this;
+    }
 
     /// @brief Copy assignment
     ///
-- 
2.43.0


From b4a770af98c8474405c4d909e03ebbcf6d129115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 25/41] fix: bitsets with the same bits set are equal whatever
 their initial size

---
 include/co_ecs/detail/dynamic_bitset.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/dynamic_bitset.hpp b/include/co_ecs/detail/dynamic_bitset.hpp
index 4bcacdd..c7a3467 100644
--- a/include/co_ecs/detail/dynamic_bitset.hpp
+++ b/include/co_ecs/detail/dynamic_bitset.hpp
@@ -78,7 +78,12 @@ public:
     /// @return true If bitsets are equal
     /// @return false If bitsets aren't equal
     auto operator==(const dynamic_bitset& rhs) const noexcept -> bool {
-        return std::ranges::equal(_blocks, rhs._blocks);
+        // trailing zero blocks are not significant
+        const auto& shorter = _blocks.size() < rhs._blocks.size() ? _blocks : rhs._blocks;
+        const auto& longer = _blocks.size() < rhs._blocks.size() ? rhs._blocks : _blocks;
+        const auto tail = std::mismatch(shorter.begin(), shorter.end(), longer.begin());
+        return tail.first == shorter.end()
+               && std::all_of(tail.second, longer.end(), [](auto block) { return block == 0; });
     }
 
 private:
-- 
2.43.0


From 09f52a2c5ed22622fb94cf305b5c0a22193e866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 26/41] fix: a task submitted under a completed task makes its
 ancestors wait for it

---
 include/co_ecs/thread_pool/task.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index db09a63..2d8ffd8 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -19,7 +19,7 @@ public:
     task_t(auto&& func, task_t* parent = nullptr) : _func(std::forward<decltype(func)>(func)), _parent(parent) {
         _unfinishedTasks.store(1, std::memory_order::relaxed);
         if (_parent) {
-            _parent->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed);
+            _parent->add_unfinished();
         }
     }
 
@@ -42,6 +42,13 @@ public:
     }
 
 private:
+    // A task that is already completed becomes unfinished again, so do its ancestors
+    void add_unfinished() noexcept {
+        if (_unfinishedTasks.fetch_add(1, std::memory_order::acq_rel) == 0 && _parent) {
+            _parent->add_unfinished();
+        }
+    }
+
     void finish() {
         // once completed this task may be reused, do not access it anymore
         auto* parent = _parent;
-- 
2.43.0


From bb423a8a0e82bb6c2ebfbd3c233fb0e25d45bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 27/41] fix: free the chunk buffer without requiring sized
 deallocation support

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 7bbc1e7..3cb358c 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -90,7 +90,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        ::operator delete(_buffer, chunk_bytes, buffer_alignment(*_blocks));
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
-- 
2.43.0


From f11e8994ae453e5b7fa49f337f8d8a1c578455cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 28/41] fix: a recorded creation that does not fit leaves no
 reservation behind

---
 include/co_ecs/command.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 26ea3c6..3eae7b5 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -263,8 +263,9 @@ public:
     /// @return A reference to the newly created command entity.
     template<component... Args>
     auto create(Args&&... args) -> command_entity_ref {
-        auto entity = _reg.reserve();
+        // may throw, nothing is reserved then
         auto staging_entity = _cmds.staging().template create<Args...>(std::forward<Args>(args)...);
+        auto entity = _reg.reserve();
         _cmds.push<command_buffer::command_create>(staging_entity, entity);
         return command_entity_ref{ _cmds, _reg, entity.get_entity() };
     }
-- 
2.43.0


From 2ed751c6f691202c416ddbdaeb37be01b0cd9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 29/41] fix: entities that are reserved only can be destroyed

---
 include/co_ecs/base_registry.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 3f26a60..1e39196 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -53,6 +53,12 @@ public:
     /// @endcode
     /// @param ent Entity to destroy
     void destroy(entity ent) {
+        ensure_alive(ent);
+        if (!_entity_archetype_map.contains(ent.id())) {
+            // reserved only, has never been given any components
+            _entity_pool.recycle(ent);
+            return;
+        }
         auto location = get_location(ent);
 
         // returns the entity that has been moved to a new location
-- 
2.43.0


From 43ceab237945a4740597e89360cce9845e0363a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 30/41] fix: a handle is not alive before it is handed out

---
 include/co_ecs/detail/handle.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index 6100929..5a6e716 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -77,10 +77,12 @@ public:
             auto id = _free_ids.back();
             _free_ids.pop_back();
             _free_cursor.store(_free_ids.size(), std::memory_order::relaxed);
+            _alive[id] = true;
             return H{ id, _generations[id] };
         }
         auto handle = H{ _next_id.fetch_add(1, std::memory_order::relaxed) };
         _generations.emplace_back();
+        _alive.emplace_back(true);
         return handle;
     };
 
@@ -89,7 +91,7 @@ public:
     /// @return True if the handle is alive
     [[nodiscard]] constexpr auto alive(H handle) const noexcept -> bool {
         if (handle.id() < _generations.size()) {
-            return _generations[handle.id()] == handle.generation();
+            return _alive[handle.id()] && _generations[handle.id()] == handle.generation();
         }
         return false;
     }
@@ -102,6 +104,7 @@ public:
             return;
         }
         _generations[handle.id()]++;
+        _alive[handle.id()] = false;
         _free_ids.push_back(handle.id());
         _free_cursor.fetch_add(1, std::memory_order::relaxed);
     }
@@ -125,10 +128,12 @@ public:
 
         while (free_cursor < 0) {
             _generations.emplace_back();
+            _alive.emplace_back(true);
             free_cursor++;
         }
 
         while (_free_ids.size() > free_cursor) {
+            _alive[_free_ids.back()] = true;
             _free_ids.pop_back();
         }
 
@@ -139,6 +144,7 @@ private:
     std::atomic<typename H::id_t> _next_id{};
     std::atomic<std::int64_t> _free_cursor{};
     std::vector<typename H::generation_t> _generations;
+    std::vector<bool> _alive; // an id without a live handle already has the generation of its next handle
     std::vector<typename H::id_t> _free_ids;
 };
 
-- 
2.43.0


From 1e6335f24cf8e497f2c8b47f4bd57d16ab7e90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 31/41] fix: order the end of a worker thread after the tasks
 it submitted

A stopped worker destroys the tasks it allocated when its thread ends. Other workers may have executed them, and the
only thing that tells the worker to stop was a relaxed flag, so the destruction was not ordered after the execution.
---
 include/co_ecs/thread_pool/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index f97b153..263862c 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -132,7 +132,7 @@ public:
         }
 
         void stop() {
-            _active.store(false, std::memory_order::relaxed);
+            _active.store(false, std::memory_order::release);
         }
 
         void join() {
@@ -142,7 +142,7 @@ public:
         }
 
         auto is_active() const noexcept -> bool {
-            return _active.load(std::memory_order::relaxed);
+            return _active.load(std::memory_order::acquire);
         }
 
         [[nodiscard]] task_t* get_task() {
-- 
2.43.0


From 17427f450252dc9b1a6188b42e45729f7575dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 32/41] fix: hash table evaluates emplace arguments before it
 grows

---
 include/co_ecs/detail/hash_table.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 25c3fd3..fbe195c 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -745,6 +745,9 @@ private:
 
     template<typename... Args>
     constexpr auto emplace_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // the arguments may refer to elements of this table, which are moved when it grows
+        value_type value(std::forward<Args>(args)...);
+
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
@@ -752,18 +755,21 @@ private:
             reserve(new_size);
         }
 
-        return _emplace_impl(std::forward<Args>(args)...);
+        return _emplace_impl(std::move(value));
     }
 
     template<typename... Args>
     constexpr auto emplace_or_assign_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // the arguments may refer to elements of this table, which are moved when it grows
+        value_type value(std::forward<Args>(args)...);
+
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
         }
-        return _emplace_or_assign_impl(std::forward<Args>(args)...);
+        return _emplace_or_assign_impl(std::move(value));
     }
 
     template<typename... Args>
-- 
2.43.0


From ee55c21def92901bcebfb423b7081e1a6495934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 33/41] fix: hash table requires a power of two bucket count,
 not an even one

---
 include/co_ecs/detail/hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index fbe195c..e7ecaae 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -285,7 +285,7 @@ public:
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
         _buckets(alloc, bucket_count), _info(bucket_count), _hash(hash), _equal(equal) {
-        assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
+        assert(bucket_count > 0 && is_power_of_2(bucket_count) && "Bucket count must be a power of two");
     }
 
     /// @brief Construct hash table
@@ -328,7 +328,7 @@ public:
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
         _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
-        assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
+        assert(bucket_count > 0 && is_power_of_2(bucket_count) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
             emplace_or_assign_impl(*first);
         }
-- 
2.43.0


From eb2383bfc7dc902b6cd607b2e9916f84c87e807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 34/41] fix: hash table cbegin and cend did not compile

---
 include/co_ecs/detail/hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index e7ecaae..feac262 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -658,14 +658,14 @@ public:
     /// @brief Get iterator to the begin of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cbegin() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cbegin() const noexcept -> const_iterator {
         return begin();
     }
 
     /// @brief Get iterator to the end of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cend() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cend() const noexcept -> const_iterator {
         return end();
     }
 
-- 
2.43.0


From 2e97048c13a9426eded053883add5c058ec01bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 35/41] fix: stack allocator accepts freeing an empty
 allocation at the end of the buffer

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index 3b050f4..cac9942 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -85,7 +85,7 @@ public:
     /// @brief Deallocate by pointer (should be top of the stack)
     /// @param ptr Pointer to deallocate
     void deallocate(void* ptr) noexcept {
-        assert((ptr < _start + _size) && (ptr >= _start) && "Outside allocation range");
+        assert((ptr <= _start + _size) && (ptr >= _start) && "Outside allocation range");
 
         // Fetch header
         auto* hdr = reinterpret_cast<alloc_header*>(static_cast<char*>(ptr) - sizeof(alloc_header));
-- 
2.43.0


From 8558015566d45467e6675f5d165a9a022eef1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 36/41] fix: temp allocator reports exhaustion when the
 requested size overflows

---
 include/co_ecs/detail/allocator/temp_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/detail/allocator/temp_allocator.hpp b/include/co_ecs/detail/allocator/temp_allocator.hpp
index 5cb4037..7f3a45f 100644
--- a/include/co_ecs/detail/allocator/temp_allocator.hpp
+++ b/include/co_ecs/detail/allocator/temp_allocator.hpp
@@ -2,6 +2,9 @@
 
 #include <co_ecs/detail/allocator/stack_allocator.hpp>
 
+#include <limits>
+#include <new>
+
 namespace co_ecs::detail {
 
 constexpr auto global_stack_allocator_size = 16ull * 1024 * 1024; // 16 MB
@@ -37,6 +40,9 @@ public:
     /// @param n Elements to allocate
     /// @return Pointer to allocated memory
     [[nodiscard]] constexpr T* allocate(std::size_t n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+            throw std::bad_alloc{};
+        }
         auto* ptr = static_cast<T*>(global_stack_allocator.allocate(n * sizeof(T), alignof(T)));
         if (!ptr) {
             throw std::bad_alloc{};
-- 
2.43.0


From 21e1a5dc0a461860469aa063ec13377c1e530666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 37/41] fix: component ids differ between binaries built with
 hidden visibility

---
 include/co_ecs/component.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 196e637..4ea37a7 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -21,7 +21,7 @@ namespace detail {
 /// @tparam Type it is parametrized over
 /// @tparam _id_type Type used for IDs
 template<typename = void, typename _id_type = std::uint64_t>
-class type_registry {
+class CO_ECS_API type_registry {
 public:
     using id_type = _id_type;
 
@@ -75,8 +75,12 @@ using component_id_t = std::uint32_t;
 /// @brief Invalid component ID
 constexpr auto invalid_component_id = std::numeric_limits<component_id_t>::max();
 
+/// @brief Tag for the family of component IDs. It has to be visible to other binaries, otherwise compilers ignore the
+/// visibility of the type registry that is parametrized over it.
+struct CO_ECS_API _component_family_t;
+
 /// @brief Type for family used to generated component IDs.
-using component_id = detail::type_id<struct _component_family_t, component_id_t>;
+using component_id = detail::type_id<_component_family_t, component_id_t>;
 
 /// @brief Component concept. The component must be a struct/class that can be move constructed and move
 /// assignable
-- 
2.43.0


From 3c14af28a31ebb83c6f5f0ccabc5f63bf5e8c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 38/41] fix: component ids are used before they are assigned
 during static initialization

---
 include/co_ecs/chunk.hpp     |  2 +-
 include/co_ecs/component.hpp | 30 +++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 3cb358c..452ccb1 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -304,7 +304,7 @@ private:
     template<typename P>
     [[nodiscard]] static inline auto ptr_unchecked_impl(auto&& self, std::size_t index) -> P {
         using component_type = std::remove_const_t<std::remove_pointer_t<P>>;
-        const auto& block = self.get_block(component_id::value<component_type>);
+        const auto& block = self.get_block(component_id::get<component_type>());
         return (reinterpret_cast<P>(self._buffer + block.offset) + index);
     }
 
diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 4ea37a7..26930d9 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -63,8 +63,24 @@ template<typename Base = void, typename _id_type = std::uint64_t>
 struct type_id {
     using id_type = _id_type;
 
+    /// @brief Get ID of a type. Unlike the value it can be used at any time, including initialization of objects with
+    /// static storage duration.
+    ///
+    /// @tparam T Type
+    /// @return id_type ID assigned to a type
+    template<typename T>
+    static auto get() -> id_type {
+        static const id_type id = type_registry<Base, id_type>::id(type_name<T>());
+        // instantiate the value, so that the ID is assigned no later than the program or the library is initialized
+        static_cast<void>(&value<T>);
+        return id;
+    }
+
+    /// @brief ID of a type
+    ///
+    /// @tparam T Type
     template<typename T>
-    inline static const id_type value = type_registry<Base, id_type>::id(type_name<T>());
+    inline static const id_type value = get<T>();
 };
 
 } // namespace detail
@@ -155,7 +171,7 @@ public:
     template<component T>
     static auto of() noexcept -> component_meta {
         return component_meta{
-            component_id::value<T>,
+            component_id::get<T>(),
             type_meta::of<T>(),
         };
     }
@@ -202,7 +218,7 @@ public:
     /// @tparam T Component type
     template<component T>
     void insert() {
-        insert(component_id::value<T>);
+        insert(component_id::get<T>());
     }
 
     /// @brief Erase component of type T
@@ -210,7 +226,7 @@ public:
     /// @tparam T Component type
     template<component T>
     void erase() {
-        erase(component_id::value<T>);
+        erase(component_id::get<T>());
     }
 
     /// @brief Check if component of type T is present in the set
@@ -220,7 +236,7 @@ public:
     /// @return false When component type T is not present
     template<component T>
     [[nodiscard]] auto contains() const -> bool {
-        return contains(component_id::value<T>);
+        return contains(component_id::get<T>());
     }
 
     /// @brief Inserts component into the set
@@ -309,7 +325,7 @@ public:
     /// @tparam T Component type
     template<component T>
     constexpr void erase() {
-        erase(component_id::value<T>);
+        erase(component_id::get<T>());
     }
 
     /// @brief Check if component of type T is present in the set
@@ -319,7 +335,7 @@ public:
     /// @return false When component type T is not present
     template<component T>
     [[nodiscard]] auto contains() const -> bool {
-        return contains(component_id::value<T>);
+        return contains(component_id::get<T>());
     }
 
     /// @brief Inserts component into the set
-- 
2.43.0


From e35b0ddaaa0dac14b4c7b55020b1cbfdfcbf8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 39/41] fix: set constructs a component differently when the
 entity has it already

---
 include/co_ecs/entity_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 76cd54e..b2cd406 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -176,7 +176,7 @@ public:
     constexpr auto set(Args&&... args) -> entity_ref {
         if (has<C>()) {
             // the value is constructed before the component is looked up, its constructor may access the registry
-            C value{ std::forward<Args>(args)... };
+            C value(std::forward<Args>(args)...);
             get<C>() = std::move(value);
         } else {
             insert<C>(std::forward<Args>(args)...);
-- 
2.43.0


From 0011ffab66083aee3b6f8fb9d940b2242c7a03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 40/41] fix: a recorded set constructs a component differently
 than set

---
 include/co_ecs/command.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 3eae7b5..9f7ed21 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -173,7 +173,7 @@ public:
     /// @return A reference to the command_entity_ref for chaining.
     template<component C, typename... Args>
     auto set(Args&&... args) -> command_entity_ref& {
-        auto staging_entity = _commands.staging().template create<C>(C{ std::forward<Args>(args)... });
+        auto staging_entity = _commands.staging().template create<C>(make<C>(std::forward<Args>(args)...));
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
@@ -215,6 +215,16 @@ public:
     }
 
 private:
+    // Constructs a component the way entity_ref does
+    template<component C, typename... Args>
+    static auto make(Args&&... args) -> C {
+        if constexpr (std::is_constructible_v<C, Args...>) {
+            return C(std::forward<Args>(args)...);
+        } else {
+            return C{ std::forward<Args>(args)... };
+        }
+    }
+
     friend class command_writer;
 
     command_entity_ref(command_buffer& commands, registry& registry, entity entity) :
-- 
2.43.0


From 2b80cc76753a4b4d2a2cab335ef7a2a079d9b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 41/41] fix: clone copies components from a non-constant source

---
 include/co_ecs/type_meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/type_meta.hpp b/include/co_ecs/type_meta.hpp
index 955e997..c789f4f 100644
--- a/include/co_ecs/type_meta.hpp
+++ b/include/co_ecs/type_meta.hpp
@@ -35,7 +35,7 @@ struct type_meta {
     template<typename T>
     static void copy_constructor(void* ptr, void* rhs) noexcept(std::is_nothrow_copy_constructible_v<T>) {
         if constexpr (std::is_copy_constructible_v<T>) {
-            std::construct_at(static_cast<T*>(ptr), *static_cast<T*>(rhs));
+            std::construct_at(static_cast<T*>(ptr), *static_cast<const T*>(rhs));
         } else {
             throw std::invalid_argument("No copy constructor defined");
         }
-- 
2.43.0

