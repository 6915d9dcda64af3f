From e0fa85e613fc306754a3ff737fc4d4c169d860e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 01/34] fix: keep reserved handles reserved when handles are
 created or recycled before flush

---
 include/co_ecs/detail/handle.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..5f6c48b 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,9 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        // reserved handles must not be given out for the second time
+        flush();
+
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -96,6 +99,9 @@ public:
     /// @brief Recycles a handle for reuse in future creations.
     /// @param handle Handle to recycle
     constexpr void recycle(H handle) {
+        // reserved handles must be taken out of the free ids list before a new id is put on top of it
+        flush();
+
         if (!alive(handle)) {
             return;
         }
-- 
2.43.0


From 9536f622009e3fcb9d814f4c068166bb35ab91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 02/34] fix: keep chunks packed when the last entry of a
 non-last chunk is erased

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..da1e5bc 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -126,7 +126,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == &other && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From d37caafc70d717206918ec98c5550ba29e7bec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 03/34] fix: align component blocks and keep them inside the
 chunk buffer

---
 include/co_ecs/archetype.hpp | 59 ++++++++++++++----------------------
 include/co_ecs/chunk.hpp     | 21 +++++++------
 2 files changed, 33 insertions(+), 47 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..43e7baf 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -185,42 +185,36 @@ private:
     }
 
     auto add_block(std::size_t offset, const component_meta& meta) -> std::size_t {
-        const std::size_t size_in_bytes = _max_size * meta.type->size;
-        const std::size_t align = meta.type->align;
+        offset = align_up(offset, meta.type->align);
 
         _blocks.emplace(meta.id, offset, meta);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
+        return offset + _max_size * meta.type->size;
+    }
 
-        return offset;
+    static constexpr auto align_up(std::size_t offset, std::size_t align) noexcept -> std::size_t {
+        return detail::mod_2n(offset, align) ? offset + align - detail::mod_2n(offset, align) : offset;
     }
 
     // Calculates the maximum size of individual components this chunk buffer can hold
     static auto get_max_size(auto&& components_meta) -> std::size_t {
-        // Calculate size of the following structure:
-        //
-        // struct {
-        //     component_a_t a;
-        //     component_b_t b;
-        //     component_c_t c;
-        //     ...
-        // };
-        //
-        auto aligned_size = aligned_components_size(components_meta);
+        // Calculate size of the blocks that hold a single entity
+        auto aligned_size = aligned_blocks_size(components_meta, 1);
 
         // handle subtraction overflow - chunk size is insufficient to hold at least one such entity
         if (aligned_size > chunk::chunk_bytes) [[unlikely]] {
             throw insufficient_chunk_size{ aligned_size, chunk::chunk_bytes };
         }
 
-        // Remaining size for packed components
-        auto remaining_space = chunk::chunk_bytes - aligned_size;
+        // Upper bound, exact when there is no padding between the blocks
+        auto max_size = chunk::chunk_bytes / packed_components_size(components_meta);
 
-        // Calculate how much components we can pack into remaining space
-        auto remaining_elements_count = remaining_space / packed_components_size(components_meta);
+        // Account for the padding between the blocks
+        while (aligned_blocks_size(components_meta, max_size) > chunk::chunk_bytes) {
+            max_size--;
+        }
 
-        // The maximum amount of entities we can hold is grater by 1 for which we calculated aligned_size
-        return remaining_elements_count + 1;
+        return max_size;
     }
 
     // Calculate size of packed structure of components
@@ -231,23 +225,14 @@ private:
             [](const auto& res, const auto& meta) { return res + meta.type->size; });
     }
 
-    // Calculate size of properly aligned structure of components
-    static auto aligned_components_size(auto&& components_meta) noexcept -> std::size_t {
-        auto begin = chunk::alloc_alignment;
-        auto end = begin;
-
-        // Add single component element size accounting for its alignment
-        auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
-            end += meta.type->size;
-        };
-
-        add_elements(component_meta::of<entity>());
-        for (const auto& meta : components_meta) {
-            add_elements(meta);
-        }
-
-        return end - begin;
+    // Calculate size of properly aligned blocks of components, each block holding count elements
+    static auto aligned_blocks_size(auto&& components_meta, std::size_t count) noexcept -> std::size_t {
+        return std::accumulate(components_meta.begin(),
+            components_meta.end(),
+            component_meta::of<entity>().type->size * count,
+            [count](const auto& end, const auto& meta) {
+                return align_up(end, meta.type->align) + meta.type->size * count;
+            });
     }
 
     template<component_reference ComponentRef>
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index da1e5bc..e2e4e44 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -39,20 +39,12 @@ public:
     /// @brief Chunk size in bytes
     static constexpr std::size_t chunk_bytes = static_cast<const std::size_t>(16U * 1024); // 16 KB
 
-    /// @brief Block allocation alignment
-    static constexpr std::size_t alloc_alignment = alignof(entity);
-
-    /// @brief Chunk buffer type
-    struct alignas(alloc_alignment) chunk_buffer {
-        std::byte data[chunk_bytes];
-    };
-
     /// @brief Construct a new chunk object
     ///
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size), _buffer(static_cast<std::byte*>(::operator new(chunk_bytes, buffer_alignment(blocks)))) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +86,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -255,6 +247,15 @@ public:
 private:
     friend class base_registry;
 
+    // Alignment of the buffer: the strictest alignment among the blocks
+    static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        std::size_t align = alignof(entity);
+        for (const auto& [id, block] : blocks) {
+            align = std::max(align, block.meta.type->align);
+        }
+        return std::align_val_t{ align };
+    }
+
     constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
-- 
2.43.0


From 792f90ade79e66af269ebf7f7b0bcc34bf712024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 04/34] fix: leave no trace in the registry when components do
 not fit into a chunk

---
 include/co_ecs/archetype.hpp     | 43 +++++++++++---------------------
 include/co_ecs/base_registry.hpp |  2 +-
 include/co_ecs/command.hpp       |  2 +-
 3 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 43e7baf..125b3b9 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -289,13 +289,7 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
-        if (!archetype) {
-            archetype = create_archetype(components);
-        }
-        assert((archetype->components().ids() == components.ids())
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype(components.ids(), [&] { return create_archetype(components); });
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -307,13 +301,7 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype(_search_component_set, [&] { return create_archetype(component_meta_set::create<Components...>()); });
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -326,13 +314,7 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype(_search_component_set, [&] { return create_archetype_added<Components...>(anchor_archetype); });
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -345,13 +327,7 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return ensure_archetype(_search_component_set, [&] { return create_archetype_removed<Components...>(anchor_archetype); });
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -390,6 +366,17 @@ public:
     }
 
 private:
+    // Finds an archetype or creates it. An entry is only made when the creation succeeds.
+    auto ensure_archetype(const component_set& ids, auto&& create) -> archetype* {
+        auto iter = _archetypes.find(ids);
+        if (iter == _archetypes.end()) {
+            auto archetype = create();
+            iter = _archetypes.emplace(ids, std::move(archetype)).first;
+        }
+        assert((iter->second->components().ids() == ids) && "Archetype components do not match the search request");
+        return iter->second.get();
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..9942af9 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -142,8 +142,8 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
+        auto entity = allocate();
         auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
         set_location(entity.id(), location);
         return entity;
diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..d09dfcc 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -252,8 +252,8 @@ public:
     /// @return A reference to the newly created command entity.
     template<component... Args>
     auto create(Args&&... args) -> command_entity_ref {
-        auto entity = _reg.reserve();
         auto staging_entity = _cmds.staging().template create<Args...>(std::forward<Args>(args)...);
+        auto entity = _reg.reserve();
         _cmds.push<command_buffer::command_create>(staging_entity, entity);
         return command_entity_ref{ _cmds, _reg, entity.get_entity() };
     }
-- 
2.43.0


From 5205ca67375563b517348aaabeec1050f905b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 05/34] fix: construct a component before the entity moves to
 another archetype

---
 include/co_ecs/entity_ref.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..82d2f3a 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,11 +148,10 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
+        if (has<C>()) {
+            return get<C>();
         }
-        return *ptr;
+        return insert<C>(C(std::forward<decltype(args)>(args)...));
     }
 
     /// @brief Set component to an entity. It can either override a component value that is already assigned to an
@@ -175,11 +174,10 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
+        if (has<C>()) {
+            get<C>() = C{ std::forward<Args>(args)... };
         } else {
-            *ptr = C{ std::forward<Args>(args)... };
+            insert<C>(C(std::forward<Args>(args)...));
         }
         return *this;
     }
@@ -343,6 +341,13 @@ public:
     }
 
 private:
+    // The component is constructed before the entity is moved: construction may throw or refer to entity's components
+    template<component C>
+    constexpr auto insert(C component) -> C& {
+        auto [_, ptr] = _registry.get().set_impl<C>(_entity);
+        return *std::construct_at(ptr, std::move(component));
+    }
+
     std::reference_wrapper<base_registry> _registry;
     entity _entity;
 };
-- 
2.43.0


From ade6b6706b1e14bb37baa138ef84950689754b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 06/34] fix: release the staged component of a set command

---
 include/co_ecs/command.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index d09dfcc..3520964 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -168,8 +168,10 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                auto staged = staging_registry.get_entity(staging_entity);
+                C component = std::move(staged.template get<C>());
+                staged.destroy();
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(component));
             });
         return *this;
     }
-- 
2.43.0


From 522d4968568fd8fc6378f5e9faf21eb97cc2cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 07/34] fix: keep the commands of a thread that has ended until
 they are flushed

---
 include/co_ecs/command.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 3520964..e08fe66 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -4,6 +4,7 @@
 #include <co_ecs/registry.hpp>
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <variant>
 
@@ -18,8 +19,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local std::shared_ptr<command_buffer> buf = create();
+        return *buf;
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,22 +29,29 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // The buffers of the threads that have ended are not needed anymore
+        std::erase_if(_command_buffers, [](const auto& command_buffer) {
+            return command_buffer.use_count() == 1 && command_buffer->_commands.empty();
+        });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
+    static inline std::vector<std::shared_ptr<command_buffer>>
         _command_buffers; ///< Vector containing all thread-local command buffers.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
+    command_buffer() = default;
+
+    static auto create() -> std::shared_ptr<command_buffer> {
         std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
+        return _command_buffers.emplace_back(new command_buffer);
     }
 
     template<typename T>
-- 
2.43.0


From 6a8b3f12ec89b2440ebc3dfc0f66305dae1cb4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 08/34] fix: let entity_not_found out of entity_ref::has and
 entity_ref::archetype

---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 82d2f3a..330c803 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -373,7 +373,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -397,7 +397,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From 9d7ef444a6a85459718db59b9e46ffa03176d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 09/34] fix: complete a task and its parent exactly once, and
 publish what tasks wrote to the waiter

---
 include/co_ecs/thread_pool/task.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..797f957 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,12 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
+        // Once the counter reaches zero this task can be reused
+        auto* parent = _parent;
 
-        if (is_completed() && _parent) {
-            _parent->finish();
+        // Only the one who completes this task notifies the parent
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From b60bb3cc80f5648b2669394cd7fc10cfc3845748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 10/34] fix: publish the grown array of the work stealing queue
 to the thieves

---
 include/co_ecs/detail/work_stealing_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..1fd98d0 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,7 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
-- 
2.43.0


From a225edff94bdc5f314ebe35d7f7ab03b590e88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 11/34] fix: keep the systems of a stage when an executor is
 created

---
 include/co_ecs/system/stage.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..7b11beb 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -74,13 +74,18 @@ public:
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
         std::vector<vector_of_executors_t> executors{};
 
-        while (!_systems.empty()) {
+        // The stage keeps its systems, so that another executor can be created
+        vector_of_executors_t pending;
+        for (auto& system : _systems) {
+            pending.emplace_back(system->create_executor(registry, user_context));
+        }
+
+        while (!pending.empty()) {
             access_pattern_t access_pattern;
             vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
-                auto system_access_pattern = executor->access_pattern();
+            for (size_t i = 0; i < pending.size();) {
+                auto system_access_pattern = pending[i]->access_pattern();
 
                 if (!access_pattern.allows(system_access_pattern)) {
                     ++i;
@@ -88,8 +93,8 @@ public:
                 }
 
                 access_pattern &= system_access_pattern;
-                executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                executor_set.emplace_back(std::move(pending[i]));
+                pending.erase(pending.begin() + i);
             }
         }
 
-- 
2.43.0


From d749ae6704b7d02204e54f70890afce0ca379af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 12/34] fix: make registry access conflict with other access
 regardless of the order of systems

---
 include/co_ecs/system/access.hpp | 2 +-
 include/co_ecs/system/stage.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index f3dc4b5..33a3275 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -42,7 +42,7 @@ public:
     /// @param other The other access pattern to check against.
     /// @return True if this access pattern allows the other, false otherwise.
     [[nodiscard]] auto allows(const access_pattern_t& other) const noexcept -> bool {
-        if ((writes_all() && other.reads_all()) || (reads_all() && !other.reads_all())) {
+        if (writes_all() || other.writes_all() || reads_all() != other.reads_all()) {
             return false;
         }
 
diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 7b11beb..7798733 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -87,7 +87,7 @@ public:
             for (size_t i = 0; i < pending.size();) {
                 auto system_access_pattern = pending[i]->access_pattern();
 
-                if (!access_pattern.allows(system_access_pattern)) {
+                if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
                     ++i;
                     continue;
                 }
-- 
2.43.0


From 23c788f01186f8a5f9c07e5d5ed970de3eccc52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 13/34] fix: run main thread systems once per stage and never
 along with conflicting systems

---
 include/co_ecs/system/stage.hpp | 51 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 7798733..330d9f2 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -9,6 +9,12 @@ namespace co_ecs {
 /// This type alias defines a vector of unique pointers to system executor interfaces.
 using vector_of_executors_t = std::vector<std::unique_ptr<system_executor_interface>>;
 
+/// @brief Systems that are allowed to run at the same time.
+struct system_batch {
+    vector_of_executors_t systems;             ///< Systems executed by the thread pool workers.
+    vector_of_executors_t main_thread_systems; ///< Systems executed one by one by the main thread.
+};
+
 class stage_executor;
 class schedule;
 
@@ -72,7 +78,7 @@ public:
     /// @param user_context Optional user context.
     /// @return Unique pointer to the created stage executor.
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
-        std::vector<vector_of_executors_t> executors{};
+        std::vector<system_batch> batches{};
 
         // The stage keeps its systems, so that another executor can be created
         vector_of_executors_t pending;
@@ -80,9 +86,15 @@ public:
             pending.emplace_back(system->create_executor(registry, user_context));
         }
 
-        while (!pending.empty()) {
+        vector_of_executors_t main_thread_pending;
+        for (auto& system : _main_thread_systems) {
+            main_thread_pending.emplace_back(system->create_executor(registry, user_context));
+        }
+
+        while (!pending.empty() || !main_thread_pending.empty()) {
             access_pattern_t access_pattern;
-            vector_of_executors_t& executor_set = executors.emplace_back();
+            system_batch& batch = batches.emplace_back();
+            vector_of_executors_t& executor_set = batch.systems;
 
             for (size_t i = 0; i < pending.size();) {
                 auto system_access_pattern = pending[i]->access_pattern();
@@ -96,15 +108,16 @@ public:
                 executor_set.emplace_back(std::move(pending[i]));
                 pending.erase(pending.begin() + i);
             }
-        }
 
-        // Main thread systems
-        vector_of_executors_t main_thread_executors;
-        for (auto& system : _main_thread_systems) {
-            main_thread_executors.emplace_back(system->create_executor(registry, user_context));
+            // Main thread systems keep their order, each one joins the first batch that allows it
+            while (!main_thread_pending.empty()
+                   && (executor_set.empty() || access_pattern.allows(main_thread_pending.front()->access_pattern()))) {
+                batch.main_thread_systems.emplace_back(std::move(main_thread_pending.front()));
+                main_thread_pending.erase(main_thread_pending.begin());
+            }
         }
 
-        return std::make_unique<stage_executor>(_name, std::move(executors), std::move(main_thread_executors));
+        return std::make_unique<stage_executor>(_name, std::move(batches));
     }
 
 private:
@@ -145,18 +158,15 @@ public:
     /// @brief Constructs a new stage executor.
     ///
     /// @param name Name of the stage.
-    /// @param executor_set Set of system executors.
-    /// @param main_thread_executors Main thread system executors.
-    explicit stage_executor(std::string_view name,
-        std::vector<vector_of_executors_t> executor_set,
-        vector_of_executors_t main_thread_executors) :
-        _executor_set(std::move(executor_set)), _main_thread_executors(std::move(main_thread_executors)), _name(name) {
+    /// @param batches Batches of system executors.
+    explicit stage_executor(std::string_view name, std::vector<system_batch> batches) :
+        _batches(std::move(batches)), _name(name) {
     }
 
     /// @brief Runs all systems in the stage.
     void run() {
-        for (auto& executors : _executor_set) {
-            execute_batch(executors);
+        for (auto& batch : _batches) {
+            execute_batch(batch);
         }
     }
 
@@ -170,7 +180,7 @@ private:
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
 
-        for (auto& work_item : work_batch) {
+        for (auto& work_item : work_batch.systems) {
             auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
             if (!parent) {
                 parent = task;
@@ -178,7 +188,7 @@ private:
         }
 
         // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
+        for (auto& executor : work_batch.main_thread_systems) {
             executor->run();
         }
 
@@ -188,8 +198,7 @@ private:
     }
 
 private:
-    std::vector<vector_of_executors_t> _executor_set;
-    vector_of_executors_t _main_thread_executors;
+    std::vector<system_batch> _batches;
     std::string_view _name;
 };
 
-- 
2.43.0


From d0be465255fdbfe103c95cd5292fab5e8bc60a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 14/34] fix: keep references to stages valid when new stages
 begin

---
 include/co_ecs/system/schedule.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/system/schedule.hpp b/include/co_ecs/system/schedule.hpp
index 77f40d5..bed9714 100644
--- a/include/co_ecs/system/schedule.hpp
+++ b/include/co_ecs/system/schedule.hpp
@@ -6,6 +6,8 @@
 #include <co_ecs/system/stage.hpp>
 #include <co_ecs/system/system.hpp>
 
+#include <deque>
+
 namespace co_ecs {
 
 class schedule_executor;
@@ -58,7 +60,7 @@ public:
 
 private:
     stage _init_stage{ *this };
-    std::vector<stage> _stages;
+    std::deque<stage> _stages; // references to the stages must stay valid
 };
 
 /// @class schedule_executor
-- 
2.43.0


From 63c94543f0ff421d93882bc2a46d135618b5e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 15/34] fix: stack allocator bounds at exhaustion and
 allocations kept over a move

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..53e83f7 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
@@ -52,6 +54,11 @@ public:
         assert(is_power_of_2(alignment) && "Alignment must be a power of two");
         assert((alignment <= std::numeric_limits<padding_t>::max()) && "Alignment is out of range");
 
+        // No space left for the header
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
+
         // Get the top of the stack
         char* top = _start + _offset;
         // Get the pointer to the top + 1 allocation header
-- 
2.43.0


From 40f3c5507a96d7437b92399a1d112227bdb7edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 16/34] fix: hash table range construction, reserve of any size
 and lifetime of erased elements

---
 include/co_ecs/detail/hash_table.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..37d5a72 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <bit>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
@@ -326,10 +327,10 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
+        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
-            emplace_or_assign_impl(std::move(*first));
+            emplace_or_assign_impl(*first);
         }
     }
 
@@ -612,7 +613,8 @@ public:
             return;
         }
 
-        hash_table h_table(new_size, _hash, _equal, _buckets.allocator());
+        // buckets are indexed with a mask, the number of them must be a power of two
+        hash_table h_table(std::bit_ceil(new_size), _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
             h_table._emplace_impl(std::move(value));
@@ -731,6 +733,9 @@ private:
             info = n_info;
         }
 
+        // the last slot of the shifted sequence is vacant now
+        allocator_traits::destroy(_buckets.allocator(), ptr);
+
         const size_type threshold = approx_40_percent(bucket_size);
         if (_size > default_bucket_count && _size < threshold) {
             const auto new_size = bucket_size >> size_type{ 1 };
-- 
2.43.0


From 0162942eaa4013e8b5d04404a39f76cfe59d0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 17/34] fix: sparse table sizes after a move and with all keys
 of a narrow key type

---
 include/co_ecs/detail/sparse_table.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..48c2d6f 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -116,14 +116,14 @@ public:
     ///
     /// @return Size of the container
     [[nodiscard]] constexpr auto size() const -> std::size_t {
-        return _size;
+        return _dense.size();
     }
 
     /// @brief Return sparse vector capacity
     ///
     /// @return Sparse vector capacity
     [[nodiscard]] constexpr auto capacity() const -> std::size_t {
-        return _sparse_capacity;
+        return _sparse.size();
     }
 
     /// @brief Return wether container is empty
@@ -134,7 +134,6 @@ public:
     /// @brief Clear elements inside container
     constexpr void clear() noexcept {
         _dense.clear();
-        _size = 0;
     }
 
     /// @brief Reserve space in dense vector
@@ -148,9 +147,8 @@ public:
     ///
     /// @param capacity
     constexpr void reserve_sparse(std::size_t capacity) {
-        if (capacity > _sparse_capacity) {
+        if (capacity > _sparse.size()) {
             _sparse.resize(capacity);
-            _sparse_capacity = capacity;
         }
     }
 
@@ -215,8 +213,7 @@ public:
         } else {
             _dense.emplace_back(key);
         }
-        _sparse[key] = _size;
-        ++_size;
+        _sparse[key] = static_cast<key_type>(_dense.size() - 1);
         return std::pair(_dense.begin() + _sparse[key], true);
     }
 
@@ -270,9 +267,8 @@ public:
     constexpr auto erase(key_type key) noexcept -> std::size_t {
         if (contains(key)) {
             _dense[_sparse[key]] = std::move(_dense.back());
-            _sparse[get_key(_dense[_size - 1])] = _sparse[key];
+            _sparse[get_key(_dense.back())] = _sparse[key];
             _dense.pop_back();
-            _size--;
             return 1;
         }
         return 0;
@@ -280,7 +276,7 @@ public:
 
 private:
     constexpr static auto find_impl(auto& self, auto& key) -> decltype(auto) {
-        if (key < self._sparse_capacity && self._sparse[key] < self._size
+        if (key < self._sparse.size() && self._sparse[key] < self._dense.size()
             && get_key(self._dense[self._sparse[key]]) == key) {
             return self.begin() + self._sparse[key];
         }
@@ -305,9 +301,6 @@ private:
 
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
-
-    key_type _size{};
-    size_t _sparse_capacity{};
 };
 
 } // namespace co_ecs::detail
-- 
2.43.0


From ed25fa7763e0d4b64be6f6e5db2214ba2189555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 18/34] fix: dynamic bitsets with the same bits are equal
 regardless of initial blocks

---
 include/co_ecs/detail/dynamic_bitset.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/dynamic_bitset.hpp b/include/co_ecs/detail/dynamic_bitset.hpp
index 4bcacdd..a024d4e 100644
--- a/include/co_ecs/detail/dynamic_bitset.hpp
+++ b/include/co_ecs/detail/dynamic_bitset.hpp
@@ -26,7 +26,9 @@ public:
     ///
     /// @param initial_blocks Initial size of the bitset
     explicit dynamic_bitset(std::size_t initial_blocks = 1) {
-        _blocks.resize(initial_blocks);
+        // there is one block at least, trailing zero blocks are not kept
+        _blocks.reserve(initial_blocks);
+        _blocks.resize(1);
     }
 
     /// @brief Check if bit at given position is set
-- 
2.43.0


From 2532cb6e7a0725505a7d3bba9d627c8c31bc4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 19/34] fix: leave no trace of an entity that failed to be
 copied or moved

---
 include/co_ecs/archetype.hpp     | 24 ++++++++++++++++--------
 include/co_ecs/base_registry.hpp | 12 ++++++++++--
 include/co_ecs/chunk.hpp         | 17 ++++++++++++++++-
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 125b3b9..e4be19e 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -119,14 +119,22 @@ public:
 
         assert((location.entry_index < chunk.size()) && "Entity location index exceeds chunk size");
 
-        auto entry_index = chunk.copy(location.entry_index, free_chunk);
-        auto new_location = entity_location{
-            &other,
-            other._chunks.size() - 1,
-            entry_index,
-        };
-
-        return new_location;
+        try {
+            auto entry_index = chunk.copy(location.entry_index, free_chunk);
+            auto new_location = entity_location{
+                &other,
+                other._chunks.size() - 1,
+                entry_index,
+            };
+
+            return new_location;
+        } catch (...) {
+            // do not keep an empty chunk at the end
+            if (free_chunk.empty() && other._chunks.size() > 1) {
+                other._chunks.pop_back();
+            }
+            throw;
+        }
     }
 
     /// @brief Visit all components of an entity.
diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 9942af9..c356cf2 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -208,11 +208,19 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
+        ensure_alive(ent);
         return move(ent, dest, dest.allocate());
     }
 
     entity copy(entity ent, base_registry& dest) const {
-        return copy(ent, dest, dest.allocate());
+        ensure_alive(ent);
+        auto allocated = dest.allocate();
+        try {
+            return copy(ent, dest, allocated);
+        } catch (...) {
+            dest._entity_pool.recycle(allocated);
+            throw;
+        }
     }
 
     entity move(entity ent, base_registry& dest, placeholder_entity placeholder) {
@@ -257,7 +265,7 @@ protected:
     }
 
     entity clone(entity ent) {
-        return copy(ent, *this, allocate());
+        return copy(ent, *this);
     }
 
     entity clone(entity ent, placeholder_entity placeholder) {
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index e2e4e44..b5d9f0c 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -172,7 +172,22 @@ public:
             }
             auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
             if (type->copy_construct) {
-                type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+                try {
+                    type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+                } catch (...) {
+                    // destroy the components copied so far
+                    for (const auto& [copied_id, copied_block] : *_blocks) {
+                        if (copied_id == id) {
+                            break;
+                        }
+                        if (other_chunk._blocks->contains(copied_id)) {
+                            const auto* copied_type = copied_block.meta.type;
+                            copied_type->destruct(other_chunk._buffer + other_chunk._blocks->at(copied_id).offset
+                                                  + other_chunk_index * copied_type->size);
+                        }
+                    }
+                    throw;
+                }
             }
         }
         other_chunk._size++;
-- 
2.43.0


From 1b2819e653c5ae26d94c17685b36640f15e6260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 20/34] fix: count a task submitted under a completed parent in
 the parents of that parent

---
 include/co_ecs/thread_pool/task.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 797f957..a10afc0 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -17,8 +17,8 @@ public:
     /// @param parent Optional pointer to a parent task, defaults to nullptr if no parent is specified.
     task_t(auto&& func, task_t* parent = nullptr) : _func(std::forward<decltype(func)>(func)), _parent(parent) {
         _unfinishedTasks.store(1, std::memory_order::relaxed);
-        if (_parent) {
-            _parent->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed);
+        // A parent that has completed in the meantime is unfinished again, and so are its own parents
+        for (auto* p = _parent; p && p->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed) == 0; p = p->_parent) {
         }
     }
 
-- 
2.43.0


From 9b5c9ea0fe01e0b42d2a9b60272d3cf70551eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 21/34] fix: make post increment, cbegin and cend of the hash
 table usable

---
 include/co_ecs/detail/hash_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 37d5a72..35da0f6 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -222,7 +222,7 @@ private:
         /// @return iterator_impl& Iterator
         constexpr auto operator++(int) noexcept -> iterator_impl {
             iterator_impl tmp(*this);
-            *this ++;
+            ++*this;
             return tmp;
         }
 
@@ -658,14 +658,14 @@ public:
     /// @brief Get iterator to the begin of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cbegin() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cbegin() const noexcept -> const_iterator {
         return begin();
     }
 
     /// @brief Get iterator to the end of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cend() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cend() const noexcept -> const_iterator {
         return end();
     }
 
-- 
2.43.0


From 29a1493367a58a36e0b0166f1b03550f4aad19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 22/34] fix: let an empty hash table reserve fewer than two
 buckets

---
 include/co_ecs/detail/hash_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 35da0f6..f4bf07e 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <bit>
 #include <cassert>
 #include <memory>
@@ -614,7 +615,7 @@ public:
         }
 
         // buckets are indexed with a mask, the number of them must be a power of two
-        hash_table h_table(std::bit_ceil(new_size), _hash, _equal, _buckets.allocator());
+        hash_table h_table(std::bit_ceil(std::max(new_size, size_type{ 2 })), _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
             h_table._emplace_impl(std::move(value));
-- 
2.43.0


From cfe4b90987caf68369edbead5585c0e37d9b3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 23/34] fix: allow to insert an element of the hash table into
 the same table

---
 include/co_ecs/detail/hash_table.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index f4bf07e..81e096c 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -746,6 +746,8 @@ private:
 
     template<typename... Args>
     constexpr auto emplace_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // args may refer to an element of this table, use them before it grows
+        value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
@@ -753,18 +755,20 @@ private:
             reserve(new_size);
         }
 
-        return _emplace_impl(std::forward<Args>(args)...);
+        return _emplace_impl(std::move(value));
     }
 
     template<typename... Args>
     constexpr auto emplace_or_assign_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // args may refer to an element of this table, use them before it grows
+        value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
         }
-        return _emplace_or_assign_impl(std::forward<Args>(args)...);
+        return _emplace_or_assign_impl(std::move(value));
     }
 
     template<typename... Args>
-- 
2.43.0


From ca69ec4585ec9353a2ba69684cbcf1278b01eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 24/34] fix: refuse temporary allocations whose size in bytes
 overflows

---
 include/co_ecs/detail/allocator/temp_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/detail/allocator/temp_allocator.hpp b/include/co_ecs/detail/allocator/temp_allocator.hpp
index 5cb4037..e58a9a0 100644
--- a/include/co_ecs/detail/allocator/temp_allocator.hpp
+++ b/include/co_ecs/detail/allocator/temp_allocator.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <limits>
+#include <new>
+
 #include <co_ecs/detail/allocator/stack_allocator.hpp>
 
 namespace co_ecs::detail {
@@ -37,6 +40,9 @@ public:
     /// @param n Elements to allocate
     /// @return Pointer to allocated memory
     [[nodiscard]] constexpr T* allocate(std::size_t n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+            throw std::bad_alloc{};
+        }
         auto* ptr = static_cast<T*>(global_stack_allocator.allocate(n * sizeof(T), alignof(T)));
         if (!ptr) {
             throw std::bad_alloc{};
-- 
2.43.0


From 9feeb558dc20970bb33b435522b5e66a8b323aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 25/34] fix: share component ids between binaries built with
 hidden visibility

---
 include/co_ecs/component.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 196e637..804cbe1 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -75,8 +75,11 @@ using component_id_t = std::uint32_t;
 /// @brief Invalid component ID
 constexpr auto invalid_component_id = std::numeric_limits<component_id_t>::max();
 
+/// @brief Family of component IDs, visible like the functions instantiated with it.
+struct CO_ECS_API _component_family_t;
+
 /// @brief Type for family used to generated component IDs.
-using component_id = detail::type_id<struct _component_family_t, component_id_t>;
+using component_id = detail::type_id<_component_family_t, component_id_t>;
 
 /// @brief Component concept. The component must be a struct/class that can be move constructed and move
 /// assignable
-- 
2.43.0


From 99b51346c404ee03f2c565e4f128125cbe32ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 26/34] fix: keep the ids of component types when a shared
 library is unloaded

---
 include/co_ecs/component.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 804cbe1..cb3bec1 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -6,6 +6,7 @@
 #include <functional>
 #include <numeric>
 #include <stdexcept>
+#include <string>
 
 #include <co_ecs/detail/dynamic_bitset.hpp>
 #include <co_ecs/detail/hash_map.hpp>
@@ -30,7 +31,7 @@ public:
     /// @param type_string Name of the type
     /// @return id_type ID assigned to a type
     CO_ECS_API static auto id(std::string_view type_string) -> id_type {
-        auto [iter, inserted] = get_id_map().emplace(type_string, get_next_id());
+        auto [iter, inserted] = get_id_map().emplace(std::string{ type_string }, get_next_id());
         if (inserted) {
             get_next_id()++;
         }
@@ -40,9 +41,10 @@ public:
 
     /// @brief Get ID mapping
     ///
-    /// @return hash_map<std::string_view, id_type>& Reference to a hash map: name -> ID
-    CO_ECS_API static auto get_id_map() -> hash_map<std::string_view, id_type>& {
-        static hash_map<std::string_view, id_type> id_map{};
+    /// @return hash_map<std::string, id_type>& Reference to a hash map: name -> ID; the names are owned by the map as
+    /// they have to outlive the binary that has asked for the ID first
+    CO_ECS_API static auto get_id_map() -> hash_map<std::string, id_type>& {
+        static hash_map<std::string, id_type> id_map{};
         return id_map;
     }
 
-- 
2.43.0


From 2c4c519feddc8460fa7640c344bcba35c4dd0316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 27/34] fix: give distinct ids to types that are printed alike

---
 include/co_ecs/component.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index cb3bec1..fa67fe1 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -7,6 +7,8 @@
 #include <numeric>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
+#include <typeinfo>
 
 #include <co_ecs/detail/dynamic_bitset.hpp>
 #include <co_ecs/detail/hash_map.hpp>
@@ -57,6 +59,20 @@ public:
     }
 };
 
+/// @brief Name that tells a type from every other type, unlike type_name() which is meant for humans and does not spell
+/// out everything: types of template arguments, types local to the same function
+///
+/// @tparam T Type
+/// @return std::string_view Unique name
+template<typename T>
+static auto unique_type_name() noexcept -> std::string_view {
+#if defined __GXX_RTTI || defined _CPPRTTI
+    return typeid(std::type_identity<T>).name(); // typeid drops the qualifiers of the type itself
+#else
+    return type_name<T>();
+#endif
+}
+
 /// @brief Generate unique sequential IDs for types
 ///
 /// @tparam Base type
@@ -66,7 +82,7 @@ struct type_id {
     using id_type = _id_type;
 
     template<typename T>
-    inline static const id_type value = type_registry<Base, id_type>::id(type_name<T>());
+    inline static const id_type value = type_registry<Base, id_type>::id(unique_type_name<T>());
 };
 
 } // namespace detail
-- 
2.43.0


From 9099f27c7da36ee5897a27c017d4fe70a6b41df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 28/34] fix: have the ids of component types while static
 variables are initialized

---
 include/co_ecs/chunk.hpp     |  2 +-
 include/co_ecs/component.hpp | 25 ++++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index b5d9f0c..20c0cbc 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -299,7 +299,7 @@ private:
     template<typename P>
     [[nodiscard]] static inline auto ptr_unchecked_impl(auto&& self, std::size_t index) -> P {
         using component_type = std::remove_const_t<std::remove_pointer_t<P>>;
-        const auto& block = self.get_block(component_id::value<component_type>);
+        const auto& block = self.get_block(component_id::get<component_type>());
         return (reinterpret_cast<P>(self._buffer + block.offset) + index);
     }
 
diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index fa67fe1..dcb727c 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -81,8 +81,19 @@ template<typename Base = void, typename _id_type = std::uint64_t>
 struct type_id {
     using id_type = _id_type;
 
+    /// @brief Get ID of a type, also while variables with static storage duration are initialized
+    ///
+    /// @tparam T Type
+    /// @return id_type ID assigned to a type
+    template<typename T>
+    static auto get() -> id_type {
+        static const id_type id = type_registry<Base, id_type>::id(unique_type_name<T>());
+        static_cast<void>(&value<T>); // have the ID assigned before main()
+        return id;
+    }
+
     template<typename T>
-    inline static const id_type value = type_registry<Base, id_type>::id(unique_type_name<T>());
+    inline static const id_type value = get<T>();
 };
 
 } // namespace detail
@@ -172,7 +183,7 @@ public:
     template<component T>
     static auto of() noexcept -> component_meta {
         return component_meta{
-            component_id::value<T>,
+            component_id::get<T>(),
             type_meta::of<T>(),
         };
     }
@@ -219,7 +230,7 @@ public:
     /// @tparam T Component type
     template<component T>
     void insert() {
-        insert(component_id::value<T>);
+        insert(component_id::get<T>());
     }
 
     /// @brief Erase component of type T
@@ -227,7 +238,7 @@ public:
     /// @tparam T Component type
     template<component T>
     void erase() {
-        erase(component_id::value<T>);
+        erase(component_id::get<T>());
     }
 
     /// @brief Check if component of type T is present in the set
@@ -237,7 +248,7 @@ public:
     /// @return false When component type T is not present
     template<component T>
     [[nodiscard]] auto contains() const -> bool {
-        return contains(component_id::value<T>);
+        return contains(component_id::get<T>());
     }
 
     /// @brief Inserts component into the set
@@ -326,7 +337,7 @@ public:
     /// @tparam T Component type
     template<component T>
     constexpr void erase() {
-        erase(component_id::value<T>);
+        erase(component_id::get<T>());
     }
 
     /// @brief Check if component of type T is present in the set
@@ -336,7 +347,7 @@ public:
     /// @return false When component type T is not present
     template<component T>
     [[nodiscard]] auto contains() const -> bool {
-        return contains(component_id::value<T>);
+        return contains(component_id::get<T>());
     }
 
     /// @brief Inserts component into the set
-- 
2.43.0


From 0b954624460ca12e24d9d95c950905984b55d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 29/34] fix: allow to release a block of no bytes at the end of
 a stack allocator

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index 53e83f7..5e83338 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -85,7 +85,7 @@ public:
     /// @brief Deallocate by pointer (should be top of the stack)
     /// @param ptr Pointer to deallocate
     void deallocate(void* ptr) noexcept {
-        assert((ptr < _start + _size) && (ptr >= _start) && "Outside allocation range");
+        assert((ptr <= _start + _size) && (ptr >= _start) && "Outside allocation range");
 
         // Fetch header
         auto* hdr = reinterpret_cast<alloc_header*>(static_cast<char*>(ptr) - sizeof(alloc_header));
-- 
2.43.0


From 9097091eb1b030fff8979fcf1876875586be335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 30/34] fix: share component ids between binaries that hide
 their inline functions

---
 include/co_ecs/component.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index dcb727c..aa17564 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -24,7 +24,7 @@ namespace detail {
 /// @tparam Type it is parametrized over
 /// @tparam _id_type Type used for IDs
 template<typename = void, typename _id_type = std::uint64_t>
-class type_registry {
+class CO_ECS_API type_registry {
 public:
     using id_type = _id_type;
 
-- 
2.43.0


From 8c99235089f5b1b2acac980abb0826d603fa0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 31/34] fix: retire the id of an entity with its last
 generation

---
 include/co_ecs/detail/handle.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index 5f6c48b..b856fb5 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -105,7 +105,10 @@ public:
         if (!alive(handle)) {
             return;
         }
-        _generations[handle.id()]++;
+        if (++_generations[handle.id()] == H::invalid_generation) {
+            // all generations of the id have been given out, it must not be used again
+            return;
+        }
         _free_ids.push_back(handle.id());
         _free_cursor.fetch_add(1, std::memory_order::relaxed);
     }
-- 
2.43.0


From 1876ff6fb768b0d901dbe9af77349b0bf29fd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 32/34] fix: take the handle of an entity that failed to be
 moved back

---
 include/co_ecs/base_registry.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index c356cf2..0d23575 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -209,7 +209,13 @@ protected:
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
         ensure_alive(ent);
-        return move(ent, dest, dest.allocate());
+        auto allocated = dest.allocate();
+        try {
+            return move(ent, dest, allocated);
+        } catch (...) {
+            dest._entity_pool.recycle(allocated);
+            throw;
+        }
     }
 
     entity copy(entity ent, base_registry& dest) const {
-- 
2.43.0


From 38ca7763f150c879de4152f20b5e58bad2d7ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 33/34] fix: keep the workers until all of them have finished

A task lives in the task pool of the thread that submitted it. A worker that ended
while another one executed a task stolen from it took the task along.
---
 include/co_ecs/thread_pool/thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index f97b153..2030beb 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -3,6 +3,7 @@
 #include <co_ecs/detail/work_stealing_queue.hpp>
 #include <co_ecs/thread_pool/task.hpp>
 
+#include <latch>
 #include <random>
 #include <semaphore>
 #include <thread>
@@ -125,6 +126,9 @@ public:
                     break;
                 }
             }
+
+            // Tasks live in the thread that submitted them, others may still execute tasks stolen from this worker
+            _pool._workers_finished.arrive_and_wait();
         }
 
         void start() {
@@ -214,7 +218,8 @@ public:
 
     /// @brief Construct thread pool with num_workers workers
     /// @param num_workers The number of workers to create
-    thread_pool(std::size_t num_workers = std::thread::hardware_concurrency()) {
+    thread_pool(std::size_t num_workers = std::thread::hardware_concurrency()) :
+        _workers_finished(num_workers > 1 ? num_workers - 1 : 0) {
         assert(num_workers > 0 && "Number of workers should be > 0");
         _workers.reserve(num_workers);
 
@@ -336,6 +341,7 @@ private:
 
     std::vector<std::unique_ptr<worker>> _workers;
     std::counting_semaphore<> _worker_wait_semaphore{ 0 };
+    std::latch _workers_finished;
 };
 
 } // namespace co_ecs
-- 
2.43.0


From df7d6f4e827fc7986d709efa6fb3801cfec4d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 34/34] fix: let the exceptions of visitors through

A visitor that threw ended the program: the chunk's visit was declared noexcept.
---
 include/co_ecs/chunk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 20c0cbc..303cbac 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -197,14 +197,14 @@ public:
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) noexcept {
+    constexpr void visit(std::size_t index, auto&& func) {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) const noexcept {
+    constexpr void visit(std::size_t index, auto&& func) const {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
@@ -271,7 +271,7 @@ private:
         return std::align_val_t{ align };
     }
 
-    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
+    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
         constexpr auto is_const = std::is_const_v<std::remove_reference_t<decltype(self)>>;
-- 
2.43.0

