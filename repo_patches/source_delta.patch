From 475be625b6ab479ed73f0f3cd33b1082b0b529b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 01/57] fix: keep resolving pending calls when one of them was
 cancelled

---
 python/xoscar/backends/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e3ca09d..e443fc4 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -105,19 +105,24 @@ class ActorCallerThreadLocal:
                             f"Remote server {client.dest_address} closed: {e}"
                         ) from None
                     future = self._client_to_message_futures[client].pop(
-                        message.message_id
+                        message.message_id, None
                     )
-                    if not future.done():
+                    if future is not None and not future.done():
                         future.set_result(message)
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
-                    future = self._client_to_message_futures[client].pop(message_id)
-                    future.set_exception(e.__cause__)  # type: ignore
+                    future = self._client_to_message_futures[client].pop(
+                        message_id, None
+                    )
+                    if future is not None and not future.done():
+                        future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
                     self._client_to_message_futures[client] = dict()
                     for future in message_futures.values():
-                        future.set_exception(copy.copy(e))
+                        # may be cancelled by its caller already
+                        if not future.done():
+                            future.set_exception(copy.copy(e))
                 finally:
                     # message may have Ray ObjectRef, delete it early in case next loop doesn't run
                     # as soon as expected.
@@ -135,7 +140,8 @@ class ActorCallerThreadLocal:
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
-                future.set_exception(copy.copy(error))
+                if not future.done():
+                    future.set_exception(copy.copy(error))
         finally:
             try:
                 await client.close()
-- 
2.43.0


From 67e0094c6a1dfb93f6d538d4cefac798638fceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 02/57] fix: raise remote errors of copy_to in the caller

---
 python/xoscar/backends/context.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 89582b1..a70e6d6 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -360,11 +360,12 @@ class IndigenActorContext(BaseActorContext):
         client = await self._get_client(address)
         if isinstance(client, UCXClient):
             message = [(buf.address, buf.uid) for buf in remote_buffer_refs]
-            await self._call_send_buffers(
+            result = await self._call_send_buffers(
                 client,
                 local_buffers,
                 self._gen_switch_to_copy_to_control_message(message),
             )
+            self._process_result_message(result)  # type: ignore
         else:
             # ``local_buffers`` will be divided into buffers of the specified block size for transmission.
             # Smaller buffers will be accumulated and sent together,
@@ -385,9 +386,10 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, remain, l_buf[:remain])
                     )
-                    await self._call_with_client(
+                    result = await self._call_with_client(
                         client, self._gen_copy_to_buffers_message(one_block_data)
                     )
+                    self._process_result_message(result)  # type: ignore
                     one_block_data = []
                     current_buf_size = 0
                     last_start += remain
@@ -400,9 +402,10 @@ class IndigenActorContext(BaseActorContext):
                     current_buf_size = len(l_buf)
 
             if one_block_data:
-                await self._call_with_client(
+                result = await self._call_with_client(
                     client, self._gen_copy_to_buffers_message(one_block_data)
                 )
+                self._process_result_message(result)  # type: ignore
 
     async def copy_to_fileobjs(
         self,
@@ -425,7 +428,8 @@ class IndigenActorContext(BaseActorContext):
                     current_file_size += len(file_data)
                     if current_file_size >= block_size:
                         message = self._gen_copy_to_fileobjs_message(one_block_data)
-                        await self._call_with_client(client, message)
+                        result = await self._call_with_client(client, message)
+                        self._process_result_message(result)  # type: ignore
                         one_block_data.clear()
                         current_file_size = 0
                 else:
@@ -433,5 +437,6 @@ class IndigenActorContext(BaseActorContext):
 
         if current_file_size > 0:
             message = self._gen_copy_to_fileobjs_message(one_block_data)
-            await self._call_with_client(client, message)
+            result = await self._call_with_client(client, message)
+            self._process_result_message(result)  # type: ignore
             one_block_data.clear()
-- 
2.43.0


From 2350f16c4ea2ce9c2e0865d06918a32266702494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 03/57] fix: give every serialized object its own ordered id

---
 python/xoscar/serialization/core.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index bf3bf56..7a30806 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -597,6 +597,9 @@ cdef class _SerialStackItem:
 
 cdef class _IdContextHolder:
     cdef unordered_map[uint64_t, uint64_t] d
+    # objects not recorded in the context can be met more than once,
+    # hence the size of the map is not a proper source of unique ids
+    cdef uint64_t next_id
 
 
 cdef int _COMMON_HEADER_LEN = 4
@@ -624,7 +627,8 @@ cdef tuple _serial_single(
                 ordered_id = id_context_holder.d[obj_id]
             else:
                 obj_id = _fast_id(obj)
-                ordered_id = id_context_holder.d.size()
+                ordered_id = id_context_holder.next_id
+                id_context_holder.next_id += 1
                 id_context_holder.d[obj_id] = ordered_id
 
             # REMEMBER to change _COMMON_HEADER_LEN when content of
-- 
2.43.0


From 93549a6d9f5ebb64a3054b37efd82d042ef66815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 04/57] fix: write typed memoryviews as bytes

---
 python/xoscar/serialization/aio.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/xoscar/serialization/aio.py b/python/xoscar/serialization/aio.py
index 174087f..28308bf 100644
--- a/python/xoscar/serialization/aio.py
+++ b/python/xoscar/serialization/aio.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 import asyncio
+import pickle  # nosec  # pylint: disable=import_pickle
 import struct
 from io import BytesIO
 from typing import Any, BinaryIO, Union
@@ -30,6 +31,16 @@ DEFAULT_SPAWN_THRESHOLD = 100
 BUFFER_SIZES_NAME = "buf_sizes"
 
 
+def _as_byte_view(buf: Any):
+    # transports slice what is left to write in bytes,
+    # thus views of other items need to be converted first
+    if isinstance(buf, memoryview) and not (
+        buf.ndim == 1 and buf.itemsize == 1 and buf.c_contiguous
+    ):
+        return pickle.PickleBuffer(buf).raw() if buf.c_contiguous else buf.tobytes()
+    return buf
+
+
 class AioSerializer:
     def __init__(self, obj: Any, compress=0):
         self._obj = obj
@@ -39,6 +50,7 @@ class AioSerializer:
         headers, buffers = await serialize_with_spawn(
             self._obj, spawn_threshold=DEFAULT_SPAWN_THRESHOLD
         )
+        buffers = [_as_byte_view(buf) for buf in buffers]
 
         def _is_cuda_buffer(buf: Union["rmm.DeviceBuffer", BinaryIO]):  # type: ignore
             return hasattr(buf, "__cuda_array_interface__")
-- 
2.43.0


From 012963ba06052fe8b8b8f438b2ba3b28e7b9deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 05/57] fix: recognise repeated references to cudf objects

---
 python/xoscar/serialization/cuda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/xoscar/serialization/cuda.py b/python/xoscar/serialization/cuda.py
index 9f11d7a..6ca7d45 100644
--- a/python/xoscar/serialization/cuda.py
+++ b/python/xoscar/serialization/cuda.py
@@ -79,6 +79,7 @@ class CudfSerializer(Serializer):
         new_index = multi_index_cls.from_tuples(original_index, names=header["names"])
         setattr(obj, attr, new_index)
 
+    @buffered
     def serial(self, obj: Any, context: Dict):
         header, buffers = obj.device_serialize()
         if hasattr(obj, "columns"):
-- 
2.43.0


From c917ceed805f77d1c4b8a5e8f614c36dd82deb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 06/57] fix: rebuild dict subclasses from a mapping

---
 python/xoscar/serialization/core.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 7a30806..fc90f1b 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -514,7 +514,8 @@ cdef class DictSerializer(CollectionSerializer):
             ret = dict(zip(keys, values))
         else:
             try:
-                ret = obj_type(zip(keys, values))
+                # types like Counter treat mappings and iterables differently
+                ret = obj_type(dict(zip(keys, values)))
             except TypeError:
                 # first arg of defaultdict is a callable
                 ret = obj_type()
-- 
2.43.0


From 440b09db5159d32dfffce7c90d3462bc1134ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 07/57] fix: serialize zero-dimensional tensors numpy cannot
 represent

---
 python/xoscar/serialization/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/torch.py b/python/xoscar/serialization/torch.py
index 835aaa9..9958622 100644
--- a/python/xoscar/serialization/torch.py
+++ b/python/xoscar/serialization/torch.py
@@ -56,7 +56,7 @@ class TorchTensorSerializer(Serializer):
             except Exception:
                 # Fallback: copy to uint8 bytes
                 # This works for ANY dtype
-                byte_tensor = obj.view(torch.uint8).clone()  # explicit copy
+                byte_tensor = obj.reshape(-1).view(torch.uint8).clone()  # explicit copy
                 np_array = byte_tensor.numpy()
                 buffer = memoryview(np_array)
                 header["format"] = "bytes"
-- 
2.43.0


From b445b15d9cfbe90401238dd44ab041c6bfde88bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 08/57] fix: match results of awaited tuple items with their
 positions

---
 python/xoscar/core.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 9ea1ee5..0eaa1e3 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -444,8 +444,7 @@ cdef class _BaseActor:
                 if extract_tuple:
                     result = list(dones)[0].result()
                 else:
-                    for pos in coro_poses:
-                        task = tasks[pos]
+                    for pos, task in zip(coro_poses, tasks):
                         values[pos] = task.result()
                     result = tuple(values)
 
-- 
2.43.0


From 17b422658ce7ab27908352f3292788c7cca4d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 09/57] fix: unregister actors whose post create hook fails

---
 python/xoscar/backends/pool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index cb61054..a79e76f 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -623,7 +623,13 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-            await self._run_coro(message.message_id, actor.__post_create__())
+            try:
+                await self._run_coro(message.message_id, actor.__post_create__())
+            except BaseException:
+                # creation failed, make sure the actor is not left registered
+                if self._actors.get(actor_id) is actor:
+                    del self._actors[actor_id]
+                raise
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
-- 
2.43.0


From d154800836b4e62d85bef259e1812d32c0e4a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 10/57] fix: report only created actors to the main pool

---
 python/xoscar/backends/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index a79e76f..fec73ea 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -925,7 +925,7 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         result = await super().create_actor(message)
-        if not message.from_main:
+        if isinstance(result, ResultMessage) and not message.from_main:
             await self.notify_main_pool_to_create(message)
         return result
 
-- 
2.43.0


From a360e64f64188c7c3c88ca8226473b14a0bc5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 11/57] fix: generate distinct process indexes for different
 processes

---
 python/xoscar/backends/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index fec73ea..8fe657d 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1038,7 +1038,7 @@ class MainActorPoolBase(ActorPoolBase):
         # make sure different processes does not share process indexes
         pid = os.getpid()
         for idx in cls._process_index_gen:
-            yield pid << 16 + idx
+            yield (pid << 16) + idx
 
     @property
     def _sub_processes(self):
-- 
2.43.0


From 3e3f6cf9044c1dc17944b6a7c4dd2e4b40521b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 12/57] fix: recover all actors even if some are created
 meanwhile

---
 python/xoscar/backends/indigen/pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 9254bf6..ea64afc 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -501,7 +501,11 @@ class MainActorPool(MainActorPoolBase):
 
         if self._auto_recover == "actor":
             # need to recover all created actors
-            for _, message in self._allocated_actors[address].values():
+            # copy as actors may be created or destroyed during recovery
+            for _, message in list(self._allocated_actors[address].values()):
+                if message is None:
+                    # placeholder of a creation in progress
+                    continue
                 create_actor_message: CreateActorMessage = message  # type: ignore
                 await self.call(address, create_actor_message)
 
-- 
2.43.0


From aef14e959066a3d4d84037319a4acd94065fc8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 13/57] fix: release the allocation slot of a creation on every
 outcome

---
 python/xoscar/backends/pool.py | 73 ++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 8fe657d..5402499 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1057,42 +1057,45 @@ class MainActorPoolBase(ActorPoolBase):
                 address = allocate_strategy.get_allocated_address(
                     self._config, self._allocated_actors
                 )
-                # set placeholder to make sure this label is occupied
-                self._allocated_actors[address][None] = (allocate_strategy, message)
-            if address == self.external_address:
-                # creating actor on main actor pool
-                result = await super().create_actor(message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[self.external_address][result.result] = (
-                        allocate_strategy,
-                        message,
-                    )
-                processor.result = result
-            else:
-                # creating actor on sub actor pool
-                # rewrite allocate strategy to AddressSpecified
-                new_allocate_strategy = AddressSpecified(address)
-                new_create_actor_message = CreateActorMessage(
-                    message.message_id,
-                    message.actor_cls,
-                    message.actor_id,
-                    message.args,
-                    message.kwargs,
-                    allocate_strategy=new_allocate_strategy,
-                    from_main=True,
-                    protocol=message.protocol,
-                    message_trace=message.message_trace,
-                )
-                result = await self.call(address, new_create_actor_message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[address][result.result] = (
-                        allocate_strategy,
-                        new_create_actor_message,
+                # set placeholder to make sure this label is occupied,
+                # one for each creation as several may be in progress
+                placeholder = object()
+                allocated = self._allocated_actors[address]
+                allocated[placeholder] = (allocate_strategy, None)
+            try:
+                if address == self.external_address:
+                    # creating actor on main actor pool
+                    result = await super().create_actor(message)
+                    if isinstance(result, ResultMessage):
+                        self._allocated_actors[self.external_address][
+                            result.result
+                        ] = (allocate_strategy, message)
+                    processor.result = result
+                else:
+                    # creating actor on sub actor pool
+                    # rewrite allocate strategy to AddressSpecified
+                    new_allocate_strategy = AddressSpecified(address)
+                    new_create_actor_message = CreateActorMessage(
+                        message.message_id,
+                        message.actor_cls,
+                        message.actor_id,
+                        message.args,
+                        message.kwargs,
+                        allocate_strategy=new_allocate_strategy,
+                        from_main=True,
+                        protocol=message.protocol,
+                        message_trace=message.message_trace,
                     )
-                processor.result = result
-
-            # revert placeholder
-            self._allocated_actors[address].pop(None, None)
+                    result = await self.call(address, new_create_actor_message)
+                    if isinstance(result, ResultMessage):
+                        self._allocated_actors[address][result.result] = (
+                            allocate_strategy,
+                            new_create_actor_message,
+                        )
+                    processor.result = result
+            finally:
+                # revert placeholder whatever the outcome
+                allocated.pop(placeholder, None)
 
         return processor.result
 
-- 
2.43.0


From 4de52c25188c757f4019253056f94c212f6d3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 14/57] fix: keep allocation records of actors that fail to be
 destroyed

---
 python/xoscar/backends/pool.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 5402499..683e590 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1129,15 +1129,19 @@ class MainActorPoolBase(ActorPoolBase):
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        # remove allocated actor ref
-        self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
         )
-        return await self.call(real_actor_ref.address, new_destroy_message)
+        result = await self.call(real_actor_ref.address, new_destroy_message)
+        if isinstance(result, ResultMessage) or isinstance(
+            result.error, ActorNotExist
+        ):
+            # the actor is gone, remove allocated actor ref
+            self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
+        return result
 
     @implements(AbstractActorPool.send)
     async def send(self, message: SendMessage) -> ResultMessageType:
-- 
2.43.0


From 93f0d4e665887b0c6ec3cc90fec9fff3a1576b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 15/57] fix: keep allocation records in step with the sub pools

---
 python/xoscar/backends/indigen/pool.py | 1 +
 python/xoscar/backends/pool.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index ea64afc..93cb760 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -410,6 +410,7 @@ class MainActorPool(MainActorPoolBase):
         process = self.sub_processes[external_address]
         process_index = self._config.get_process_index(external_address)
         del self.sub_processes[external_address]
+        self._allocated_actors.pop(external_address, None)
         self._config.remove_pool_config(process_index)
         await self.stop_sub_pool(external_address, process, timeout, force)
 
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 683e590..b64fb8c 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1393,6 +1393,7 @@ class MainActorPoolBase(ActorPoolBase):
 
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
+        self._allocated_actors.setdefault(external_address, dict())
 
     async def stop_sub_pools(self):
         to_stop_processes: dict[str, SubProcessHandle] = dict()  # type: ignore
-- 
2.43.0


From d1a2bdb13e2e49d94aa0c42c866e40479cde9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 16/57] fix: kill started sub pools when one of them fails to
 start

---
 python/xoscar/backends/indigen/pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 93cb760..ef39453 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -151,7 +151,12 @@ class MainActorPool(MainActorPoolBase):
         ext_addresses = []
         error = None
         for task in create_pool_tasks:
-            process, address = await task
+            try:
+                process, address = await task
+            except Exception as ex:
+                # wait for the others, then kill them
+                error = ex
+                continue
             processes.append(process)
             ext_addresses.append(address)
         if error:
-- 
2.43.0


From 514ba4e85bc2ba1b5d61c5f2088541e1a0ecad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 17/57] fix: remove every address of a removed pool from the
 mapping

---
 python/xoscar/backends/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 8b34212..7a1c2d0 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -73,9 +73,9 @@ class ActorPoolConfig:
             mapping[addr] = internal_address
 
     def remove_pool_config(self, process_index: int):
-        addr = self.get_external_address(process_index)
-        del self._conf["pools"][process_index]
-        del self._conf["mapping"][addr]
+        pool_config = self._conf["pools"].pop(process_index)
+        for addr in pool_config["external_address"]:
+            self._conf["mapping"].pop(addr, None)
 
     def get_pool_config(self, process_index: int):
         return self._conf["pools"][process_index]
-- 
2.43.0


From d12a2e318a42544e52b26c0b30c8edf3ef3aa647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 18/57] fix: do not leave a sub pool that failed to start
 configured

---
 python/xoscar/backends/indigen/pool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index ef39453..f89e932 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -392,9 +392,14 @@ class MainActorPool(MainActorPoolBase):
             kwargs,
         )
 
-        process, external_addresses = await self._create_sub_pool_from_parent(
-            self._config, process_index, start_python
-        )
+        try:
+            process, external_addresses = await self._create_sub_pool_from_parent(
+                self._config, process_index, start_python
+            )
+        except BaseException:
+            # not started, do not leave an unreachable pool configured
+            self._config.remove_pool_config(process_index)
+            raise
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
-- 
2.43.0


From b32c62a4471143d6d3b1dc41e115db7f2649bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 19/57] fix: send the cancellation of a call through the
 proxies of the call

---
 python/xoscar/backends/context.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index a70e6d6..959f8f7 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -110,12 +110,20 @@ class IndigenActorContext(BaseActorContext):
         else:
             raise message.as_instanceof_cause()
 
-    async def _wait(self, future: asyncio.Future, address: str, message: _MessageBase):
+    async def _wait(
+        self,
+        future: asyncio.Future,
+        address: str,
+        message: _MessageBase,
+        proxy_addresses: list[str] | None = None,
+    ):
         try:
             await asyncio.shield(future)
         except asyncio.CancelledError:
             try:
-                await self.cancel(address, message.message_id)
+                await self.cancel(
+                    address, message.message_id, proxy_addresses=proxy_addresses
+                )
             except CannotCancelTask:
                 # cancel failed, already finished
                 raise asyncio.CancelledError
@@ -161,7 +169,7 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(future, actor_ref.address, message, actor_ref.proxy_addresses)  # type: ignore
         return self._process_result_message(result)
 
     async def destroy_actor(self, actor_ref: ActorRef):
@@ -174,7 +182,7 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(future, actor_ref.address, message, actor_ref.proxy_addresses)  # type: ignore
         return self._process_result_message(result)
 
     async def kill_actor(self, actor_ref: ActorRef, force: bool = True):
@@ -221,7 +229,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)
+        result = await self._wait(
+            future, actor_ref.address, message, actor_ref.proxy_addresses
+        )
         res = self._process_result_message(result)
         if res.address != connect_addr:
             res.address = fix_all_zero_ip(res.address, connect_addr)
@@ -258,16 +268,21 @@ class IndigenActorContext(BaseActorContext):
                 proxy_addresses=actor_ref.proxy_addresses,
             )
             if wait_response:
-                result = await self._wait(future, actor_ref.address, send_message)  # type: ignore
+                result = await self._wait(future, actor_ref.address, send_message, actor_ref.proxy_addresses)  # type: ignore
                 return self._process_result_message(result)
             else:
                 return future
 
-    async def cancel(self, address: str, cancel_message_id: bytes):
+    async def cancel(
+        self,
+        address: str,
+        cancel_message_id: bytes,
+        proxy_addresses: list[str] | None = None,
+    ):
         message = CancelMessage(
             new_message_id(), address, cancel_message_id, protocol=DEFAULT_PROTOCOL
         )
-        result = await self._call(address, message)
+        result = await self._call(address, message, proxy_addresses=proxy_addresses)
         return self._process_result_message(result)  # type: ignore
 
     async def wait_actor_pool_recovered(
-- 
2.43.0


From 1079b0bf8064d13ce076508bd97d6c466528d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 20/57] fix: cancel the call when the wait_for on it is
 cancelled

---
 python/xoscar/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index a290bb4..8b9e36f 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -213,6 +213,10 @@ async def wait_for(fut: Awaitable[Any], timeout: int | float | None = None) -> A
             except Exception:
                 logger.warning("Failed to cancel task", exc_info=True)
         raise
+    except asyncio.CancelledError:
+        # the waiter itself is cancelled, so is the call it waits for
+        task.cancel()
+        raise
 
 
 def buffer_ref(address: str, buffer: Any) -> BufferRef:
-- 
2.43.0


From b8f83446311f87d271cde00aa86a9fa9457f8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 21/57] fix: keep trace and profiling context of redirected
 messages

---
 python/xoscar/backends/pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index b64fb8c..9e79e29 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1134,6 +1134,7 @@ class MainActorPoolBase(ActorPoolBase):
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
+            message_trace=message.message_trace,
         )
         result = await self.call(real_actor_ref.address, new_destroy_message)
         if isinstance(result, ResultMessage) or isinstance(
@@ -1160,6 +1161,7 @@ class MainActorPoolBase(ActorPoolBase):
             message.content,
             protocol=message.protocol,
             message_trace=message.message_trace,
+            profiling_context=message.profiling_context,
         )
         return await self.call(actor_ref.address, new_send_message)
 
@@ -1180,6 +1182,7 @@ class MainActorPoolBase(ActorPoolBase):
             message.content,
             protocol=message.protocol,
             message_trace=message.message_trace,
+            profiling_context=message.profiling_context,
         )
         return await self.call(actor_ref.address, new_tell_message)
 
-- 
2.43.0


From 5b05f1cd210dc4e36886ccd2705257f3120cf0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 22/57] fix: end the chain of proxies when proxies refer to
 each other

---
 python/xoscar/backends/router.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index c14a074..632ce19 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -274,12 +274,17 @@ class Router:
         """
 
         proxies: list[str] = []
+        seen = {from_addr}
         while True:
             proxy = self.get_proxy(from_addr)
+            if proxy in seen:
+                # the proxies refer to each other, e.g. {'*': 'a', 'a': 'b'}
+                return proxies or None
             if not proxies and not proxy:
                 return None
             elif not proxy:
                 return proxies
             else:
                 proxies.append(proxy)
+                seen.add(proxy)
                 from_addr = proxy
-- 
2.43.0


From 5c987df815ec4560f846e67ab7bd3d53f13d65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 23/57] fix: forget the routes of a removed sub pool

---
 python/xoscar/backends/router.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index 632ce19..8e18dcc 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -68,9 +68,9 @@ class Router:
         self._local_mapping = dict()
         for addr in self._curr_external_addresses:
             self._local_mapping[addr] = local_address
-        if mapping is None:
-            mapping = dict()
-        self._mapping = mapping
+        # a copy, so that remove_router removes what has been added
+        # even if the given mapping is changed later
+        self._mapping = dict(mapping or ())
         self._comm_config = comm_config or dict()
         self._proxy_config = proxy_config or dict()
         self._cache_local = threading.local()
@@ -92,7 +92,7 @@ class Router:
             return lock
 
     def set_mapping(self, mapping: dict[str, str]):
-        self._mapping = mapping
+        self._mapping = dict(mapping)
         self._cache_local = threading.local()
 
     def add_router(self, router: "Router"):
-- 
2.43.0


From 9463c48bf0e0e940f020a1c37b3459c7ad63d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 24/57] fix: forget the proxies of a stopped pool

---
 python/xoscar/backends/router.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index 8e18dcc..a9f1a78 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -72,7 +72,7 @@ class Router:
         # even if the given mapping is changed later
         self._mapping = dict(mapping or ())
         self._comm_config = comm_config or dict()
-        self._proxy_config = proxy_config or dict()
+        self._proxy_config = dict(proxy_config or ())
         self._cache_local = threading.local()
 
     @property
@@ -113,6 +113,9 @@ class Router:
             self._local_mapping.pop(addr, None)
         for addr in router._mapping:
             self._mapping.pop(addr, None)
+        for addr, proxy in router._proxy_config.items():
+            if self._proxy_config.get(addr) == proxy:
+                del self._proxy_config[addr]
         self._cache_local = threading.local()
 
     @property
-- 
2.43.0


From 08cddaca193b424799db840a01c07d3402877df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 25/57] fix: accept futures among several awaitables yielded by
 an actor

---
 python/xoscar/core.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 0eaa1e3..8bf72e0 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -431,7 +431,7 @@ cdef class _BaseActor:
                 else:
                     result = tuple(task_result if t is coros[0] else t for t in values)
             elif len(coros) > 0:
-                tasks = [asyncio.create_task(t) for t in coros]
+                tasks = [asyncio.ensure_future(t) for t in coros]
                 try:
                     dones, pending = await asyncio.wait(tasks)
                 except asyncio.CancelledError:
-- 
2.43.0


From 8022d5dce13109b31bb0dab6827677fb9f19829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 26/57] fix: do not take an error that mentions StopIteration
 for the end of a generator

---
 python/xoscar/api.py    | 10 ++++------
 python/xoscar/errors.py |  4 ++++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index 8b9e36f..41b751c 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -42,6 +42,7 @@ from .aio import AioFileObject
 from .backend import get_backend
 from .context import get_context
 from .core import ActorRef, BufferRef, FileObjectRef, _Actor, _StatelessActor
+from .errors import GeneratorExhausted
 
 if TYPE_CHECKING:
     from .backends.config import ActorPoolConfig
@@ -376,11 +377,8 @@ class IteratorWrapper(Generic[T]):
         try:
             assert self._actor_ref is not None
             return await self._actor_ref.__xoscar_next__(self._uid)
-        except Exception as e:
-            if "StopIteration" in str(e):
-                raise StopAsyncIteration
-            else:
-                raise
+        except GeneratorExhausted:
+            raise StopAsyncIteration
 
 
 class AsyncActorMixin:
@@ -470,7 +468,7 @@ class AsyncActorMixin:
             if r is stop:
                 await self.__xoscar_destroy_generator__(generator_uid)
                 del gen  # Avoid exception hold generator reference.
-                raise Exception("StopIteration")
+                raise GeneratorExhausted("StopIteration")
             else:
                 return r
         else:
diff --git a/python/xoscar/errors.py b/python/xoscar/errors.py
index 2fe4798..852d22c 100644
--- a/python/xoscar/errors.py
+++ b/python/xoscar/errors.py
@@ -61,3 +61,7 @@ class SendMessageFailed(XoscarError):
 class Return(XoscarError):
     def __init__(self, value):
         self.value = value
+
+
+class GeneratorExhausted(XoscarError):
+    """Tells the consumer of a remote generator that there are no more items."""
-- 
2.43.0


From 6238466c36120c8752d03025c30dbb784394523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 27/57] fix: allow a synchronous batch method to return nothing

---
 python/xoscar/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 82f8c25..c29a493 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -112,7 +112,8 @@ class _ExtensibleCallable:
             self.has_single_func = False
 
         if self.batch_func is not None:
-            return self.batch_func([args], [kwargs])[0]
+            ret = self.batch_func([args], [kwargs])
+            return None if ret is None else ret[0]
         raise NotImplementedError
 
 
-- 
2.43.0


From 9ceceb22c597d101bb386560c6b8518faa967500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 28/57] fix: allow to copy a reference to a destroyed local
 actor

---
 python/xoscar/core.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 8bf72e0..0330667 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -257,6 +257,10 @@ cdef class LocalActorRef(ActorRef):
         return None
 
     def __getattr__(self, item):
+        if item.startswith('__') and item.endswith('__') and item not in ["__xoscar_next__", "__xoscar_destroy_generator__"]:
+            # special methods like __deepcopy__ are those of the reference
+            return object.__getattribute__(self, item)
+
         try:
             return self._methods[item]
         except KeyError:
-- 
2.43.0


From 62c68c48a895823bcfb99a29d194c5013ef2ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 29/57] fix: forget inherited handlers when a handler is
 registered

---
 python/xoscar/_utils.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index d573355..62f01fe 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -48,11 +48,13 @@ cdef class TypeDispatcher:
     cpdef void register(self, object type_, object handler):
         if isinstance(type_, str):
             self._lazy_handlers[type_] = handler
+            self._inherit_handlers.clear()
         elif type(type_) is not NamedType and isinstance(type_, tuple):
             for t in type_:
                 self.register(t, handler)
         else:
             self._handlers[type_] = handler
+            self._inherit_handlers.clear()
 
     cpdef void unregister(self, object type_):
         if type(type_) is not NamedType and isinstance(type_, tuple):
-- 
2.43.0


From 0fbe7b8e6f12684382cb9730d0a2cd83db796a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 30/57] fix: keep the deserializer of a serializer still
 registered for other types

---
 python/xoscar/serialization/core.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index fc90f1b..27c4372 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -186,6 +186,12 @@ cdef class Serializer:
         if name is not None:
             obj_type = NamedType(name, obj_type)
         _serial_dispatcher.unregister(obj_type)
+        for handlers in (
+            _serial_dispatcher._handlers, _serial_dispatcher._lazy_handlers
+        ):
+            if any(type(handler) is cls for handler in handlers.values()):
+                # still in use for other types
+                return
         _deserializers.pop(cls.serializer_id, None)
 
 
-- 
2.43.0


From 0b012d8934aed4092ec6e5d7d74c861627d80536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 31/57] fix: refuse a stream for every collective operation of
 gloo

---
 python/xoscar/collective/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/xoscar/collective/core.py b/python/xoscar/collective/core.py
index d5e7d96..f132167 100644
--- a/python/xoscar/collective/core.py
+++ b/python/xoscar/collective/core.py
@@ -188,6 +188,9 @@ class RankActor(Actor):
         pg_name: str = "default",
         stream: Optional[Any] = None,
     ):
+        assert self.backend() == "nccl" or (
+            self.backend() == "gloo" and stream is None
+        ), "The parameter 'stream' can only be used when the backend of the group is 'nccl'"
         if self._backend == "gloo":
             self.name_to_pg[self._backend][pg_name].allreduce(
                 send_data, recv_data, op=op, algorithm=algorithm, tag=tag
@@ -227,6 +230,9 @@ class RankActor(Actor):
         pg_name: str = "default",
         stream: Optional[Any] = None,
     ):
+        assert self.backend() == "nccl" or (
+            self.backend() == "gloo" and stream is None
+        ), "The parameter 'stream' can only be used when the backend of the group is 'nccl'"
         if self._backend == "gloo":
             self.name_to_pg[self._backend][pg_name].allgather(
                 send_data, recv_data, tag=tag
-- 
2.43.0


From 229ae51ee11117938eab8baa74598fe2bc5f0f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 32/57] fix: kill a sub pool process whose start failed or was
 cancelled

---
 python/xoscar/backends/indigen/pool.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index f89e932..855cc6b 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -276,6 +276,7 @@ class MainActorPool(MainActorPoolBase):
             start_python = sys.executable
 
         external_addresses: List | None = None
+        process: asyncio.subprocess.Process | None = None
         shm = shared_memory.SharedMemory(
             create=True, size=_SUBPROCESS_SHM_SIZE, track=False
         )
@@ -337,8 +338,20 @@ class MainActorPool(MainActorPoolBase):
             for t in unfinished:
                 t.cancel()
         finally:
-            shm.close()
-            shm.unlink()
+            if (
+                external_addresses is None
+                and process is not None
+                and process.returncode is None
+            ):
+                # failed or cancelled, do not leave the process running
+                try:
+                    process.kill()
+                except ProcessLookupError:
+                    pass
+            try:
+                shm.close()
+            finally:
+                shm.unlink()
         if external_addresses is None:
             raise OSError(f"Start sub pool failed, returncode: {process.returncode}")
         return process, external_addresses
-- 
2.43.0


From 3ae1cfd181142e6ebb08afbe7c0dd226e249edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 33/57] fix: kill started sub pools when waiting for them is
 cancelled

---
 python/xoscar/backends/indigen/pool.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 855cc6b..f565e17 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -153,7 +153,11 @@ class MainActorPool(MainActorPoolBase):
         for task in create_pool_tasks:
             try:
                 process, address = await task
-            except Exception as ex:
+            except BaseException as ex:
+                if not isinstance(ex, Exception):
+                    # cancelled, do not start the others
+                    for t in create_pool_tasks:
+                        t.cancel()
                 # wait for the others, then kill them
                 error = ex
                 continue
@@ -162,7 +166,10 @@ class MainActorPool(MainActorPoolBase):
         if error:
             for p in processes:
                 # error happens, kill all subprocesses
-                p.kill()
+                try:
+                    p.kill()
+                except ProcessLookupError:
+                    pass
             raise error
         return processes, ext_addresses
 
-- 
2.43.0


From a15a25b9143f0aa7d9fac74a766195cebeeb1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 34/57] fix: kill sub pools when the main pool cannot be
 created

---
 python/xoscar/backends/pool.py | 59 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 9e79e29..76f1be0 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1324,33 +1324,42 @@ class MainActorPoolBase(ActorPoolBase):
                 subpool_process_idxes.append(process_index)
 
         processes, ext_addresses = await cls.wait_sub_pools_ready(tasks)
-        if ext_addresses:
-            for process_index, ext_address in zip(subpool_process_idxes, ext_addresses):
-                actor_pool_config.reset_pool_external_address(
-                    process_index, ext_address
-                )
+        try:
+            if ext_addresses:
+                for process_index, ext_address in zip(subpool_process_idxes, ext_addresses):
+                    actor_pool_config.reset_pool_external_address(
+                        process_index, ext_address
+                    )
 
-        # create main actor pool
-        pool: MainActorPoolType = await super().create(config)
-        addresses = actor_pool_config.get_external_addresses()[1:]
-
-        assert len(addresses) == len(
-            processes
-        ), f"addresses {addresses}, processes {processes}"
-        for addr, proc in zip(addresses, processes):
-            pool.attach_sub_process(addr, proc)
-
-        new_config_addresses = set(actor_pool_config.get_external_addresses())
-        if old_config_addresses != new_config_addresses:
-            control_message = ControlMessage(
-                message_id=new_message_id(),
-                address=pool.external_address,
-                control_message_type=ControlMessageType.sync_config,
-                content=actor_pool_config,
-            )
-            await pool.handle_control_command(control_message)
+            # create main actor pool
+            pool: MainActorPoolType = await super().create(config)
+            addresses = actor_pool_config.get_external_addresses()[1:]
+
+            assert len(addresses) == len(
+                processes
+            ), f"addresses {addresses}, processes {processes}"
+            for addr, proc in zip(addresses, processes):
+                pool.attach_sub_process(addr, proc)
+
+            new_config_addresses = set(actor_pool_config.get_external_addresses())
+            if old_config_addresses != new_config_addresses:
+                control_message = ControlMessage(
+                    message_id=new_message_id(),
+                    address=pool.external_address,
+                    control_message_type=ControlMessageType.sync_config,
+                    content=actor_pool_config,
+                )
+                await pool.handle_control_command(control_message)
 
-        return pool
+            return pool
+        except BaseException:
+            # the main pool cannot be created, do not leave sub pools running
+            for proc in processes:
+                try:
+                    proc.kill()
+                except ProcessLookupError:
+                    pass
+            raise
 
     async def start_monitor(self):
         # Only start monitor if there are sub processes to monitor
-- 
2.43.0


From 06a17a49542e5d51fe91ac3b09c06b6b06063e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 35/57] fix: kill a sub pool whose stop message cannot be
 delivered

---
 python/xoscar/backends/pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 76f1be0..a1c76ec 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1450,6 +1450,10 @@ class MainActorPoolBase(ActorPoolBase):
         except (ConnectionError, ServerClosed):
             # process dead maybe, ignore it
             force = True
+        except Exception:  # pragma: no cover
+            # the pool cannot be asked to stop, kill it
+            logger.warning("Failed to stop sub pool %s", address, exc_info=True)
+            force = True
         # kill process
         await self.kill_sub_pool(process, force=force)
 
-- 
2.43.0


From 3d11de37d2094e78afd049d09a714762924410af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 36/57] fix: stop the main pool itself when stopping a sub pool
 fails

---
 python/xoscar/backends/pool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index a1c76ec..068ed06 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1385,8 +1385,10 @@ class MainActorPoolBase(ActorPoolBase):
             except asyncio.CancelledError:
                 pass  # Expected when cancelling the task
             self._monitor_task = None
-        await self.stop_sub_pools()
-        await super().stop()
+        try:
+            await self.stop_sub_pools()
+        finally:
+            await super().stop()
 
     @classmethod
     @abstractmethod
-- 
2.43.0


From a0f352031655b69cb8de91b6d8588f0b1088b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 37/57] fix: cancel the listeners of a caller when closing a
 client fails

---
 python/xoscar/backends/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e443fc4..bcb5ba5 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -232,10 +232,11 @@ class ActorCallerThreadLocal:
             await asyncio.gather(*[client.close() for client in self._clients])
         except (ConnectionError, ServerClosed):
             pass
-        try:
-            self.cancel_tasks()
-        except:
-            pass
+        finally:
+            try:
+                self.cancel_tasks()
+            except:
+                pass
 
     def cancel_tasks(self):
         # cancel listening for all clients
-- 
2.43.0


From 6bfd71ef411b573cbbe6de37dde43ddf3ab7ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 38/57] fix: never kill the process that took over the pid of a
 stopped sub pool

---
 python/xoscar/backends/indigen/pool.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index f565e17..88c506e 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -506,8 +506,9 @@ class MainActorPool(MainActorPoolBase):
 
         # Additional cleanup using psutil to ensure process tree is terminated
         try:
-            p = psutil.Process(process.pid)
-            if p.is_running():
+            # once the process is reaped, its pid may belong to another process
+            p = psutil.Process(process.pid) if process.returncode is None else None
+            if p is not None and p.is_running():
                 # Kill the entire process tree
                 for child in p.children(recursive=True):
                     try:
@@ -515,7 +516,8 @@ class MainActorPool(MainActorPoolBase):
                     except psutil.NoSuchProcess:
                         pass
                 p.kill()
-                p.wait(timeout=2.0)
+                # do not block the event loop
+                await asyncio.to_thread(p.wait, 2.0)
         except (psutil.NoSuchProcess, psutil.TimeoutExpired):
             # Process already dead or couldn't be killed
             pass
-- 
2.43.0


From 918ad9f7cf89dfec6bdf70e5b2c359f97660336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 39/57] fix: stop the servers of a pool when one of them cannot
 be created

---
 python/xoscar/backends/pool.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 068ed06..582cb9d 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -808,7 +808,15 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             task = asyncio.create_task(server_type.create(server_config))
             create_server_tasks.append(task)
 
-        await asyncio.gather(*create_server_tasks)
+        try:
+            await asyncio.gather(*create_server_tasks)
+        except BaseException:
+            # do not leave the others listening
+            servers = await asyncio.gather(*create_server_tasks, return_exceptions=True)
+            for server in servers:
+                if isinstance(server, Server):
+                    await server.stop()
+            raise
         return [f.result() for f in create_server_tasks]
 
     @classmethod
-- 
2.43.0


From 21036b479ab730e1e8412a0f8208cd5e52debc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 40/57] fix: fail the pending calls of a connection when its
 listener is cancelled

---
 python/xoscar/backends/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index bcb5ba5..8d2dd8e 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -135,14 +135,14 @@ class ActorCallerThreadLocal:
                     except NameError:
                         pass
                     await asyncio.sleep(0)
-
+        finally:
+            # also when the listener is cancelled by stop, no reply will arrive anymore
             message_futures = self._client_to_message_futures[client]
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
                 if not future.done():
                     future.set_exception(copy.copy(error))
-        finally:
             try:
                 await client.close()
             except:  # noqa: E722  # nosec  # pylint: disable=bare-except
-- 
2.43.0


From b31f4a633d2b7f6b65f71f7d126871a1f7ddc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 41/57] fix: answer a request that cannot be deserialized
 instead of closing its connection

---
 python/xoscar/backends/pool.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 582cb9d..149c87e 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -61,6 +61,7 @@ from .message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    DeserializeMessageFailed,
     DestroyActorMessage,
     ErrorMessage,
     ForwardMessage,
@@ -575,6 +576,14 @@ class AbstractActorPool(ABC):
             while not self._stopped.is_set():
                 try:
                     message = await channel.recv()
+                except DeserializeMessageFailed as e:
+                    # the message is read completely, only this request fails
+                    with _ErrorProcessor(
+                        self.external_address, e.message_id, DEFAULT_PROTOCOL
+                    ) as processor:
+                        raise e.__cause__ or e
+                    asyncio.create_task(self._send_channel(processor.result, channel))
+                    continue
                 except (EOFError, ConnectionError, BrokenPipeError) as e:
                     logger.debug(f"pool: close connection due to {e}")
                     # no data to read, check channel
-- 
2.43.0


From 4b65e0203c2007b594e371e785d5f445b5694b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 42/57] fix: wake up pending receivers when an in-process
 connection is closed

---
 python/xoscar/backends/communication/dummy.py | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 4f1ddee..5df616a 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -32,6 +32,9 @@ DEFAULT_DUMMY_ADDRESS = "dummy://0"
 
 logger = logging.getLogger(__name__)
 
+# put into the queues of a channel when it is closed, to wake up pending recv
+_CLOSED = object()
+
 
 class DummyChannel(Channel):
     """
@@ -77,14 +80,26 @@ class DummyChannel(Channel):
         if self._closed.is_set():  # pragma: no cover
             raise ChannelClosed("Channel already closed, cannot write message")
         try:
-            return await self._in_queue.get()
+            message = await self._in_queue.get()
         except RuntimeError:
-            if self._closed.is_set():
-                pass
+            return None
+        if message is _CLOSED:
+            # wake up other receivers as well
+            self._in_queue.put_nowait(_CLOSED)
+            raise EOFError("Channel closed")
+        return message
 
     @implements(Channel.close)
     async def close(self):
+        if self._closed.is_set():
+            return
         self._closed.set()
+        for queue in (self._in_queue, self._out_queue):
+            try:
+                queue.put_nowait(_CLOSED)
+            except RuntimeError:  # pragma: no cover
+                # the event loop of the receiver is closed
+                pass
 
     @property
     @implements(Channel.closed)
-- 
2.43.0


From 027e486fb5a4ed92719c50e4bc6b4ccd33b738b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 43/57] fix: abort a UCX connection when a send is cancelled in
 the middle of a message

---
 python/xoscar/backends/communication/ucx.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/communication/ucx.py b/python/xoscar/backends/communication/ucx.py
index 26d69a8..93bae5a 100644
--- a/python/xoscar/backends/communication/ucx.py
+++ b/python/xoscar/backends/communication/ucx.py
@@ -309,11 +309,19 @@ class UCXChannel(Channel):
                 meta_buffers = await self._serialize(meta)
 
             async with self._send_lock:
-                if meta_buffers:
-                    for buf in meta_buffers:
-                        await self.ucp_endpoint.send(buf)
-                for buffer in buffers:
-                    await self.ucp_endpoint.send(buffer)
+                if self.ucp_endpoint is None:
+                    raise ChannelClosed("UCX Endpoint is closed, unable to send")
+                try:
+                    if meta_buffers:
+                        for buf in meta_buffers:
+                            await self.ucp_endpoint.send(buf)
+                    for buffer in buffers:
+                        await self.ucp_endpoint.send(buffer)
+                except asyncio.CancelledError:
+                    # part of the message may be sent already, the peer would
+                    # take the next message as the rest of it
+                    self.abort()
+                    raise
         except ucp.exceptions.UCXError:  # pragma: no cover
             self.abort()
             raise ChannelClosed("While writing, the connection was closed")
-- 
2.43.0


From 9b08aaf30307d58613fa96f8f6300b7b1ff5ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 44/57] fix: restore the message trace when the block without
 one raises

---
 python/xoscar/debug.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/debug.py b/python/xoscar/debug.py
index 3372c80..cbd6907 100644
--- a/python/xoscar/debug.py
+++ b/python/xoscar/debug.py
@@ -171,8 +171,10 @@ def no_message_trace():
         yield
     else:
         trace = pop_message_trace()
-        yield
-        set_message_trace(trace)
+        try:
+            yield
+        finally:
+            set_message_trace(trace)
 
 
 def pop_message_trace():
-- 
2.43.0


From 9ad47e97a88ff988e88938fa8ac63bbe6debf756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 45/57] fix: never fail a call because profiling cannot compare
 its arguments

---
 python/xoscar/profiling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index b6ec15c..d85dd19 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -151,7 +151,8 @@ class _CallStats:
                 heapq.heappush(self._slow_calls, slow_call_key)
             else:
                 heapq.heapreplace(self._slow_calls, slow_call_key)
-        except TypeError:
+        except Exception:
+            # the arguments of the calls may not be comparable
             pass
 
     def to_dict(self) -> dict:
-- 
2.43.0


From 0d96af9b32a6fc66715122dcb349f80ade1f24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 46/57] fix: report profiling data of actors whose ids are
 generated

---
 python/xoscar/profiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index d85dd19..4358d90 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -159,14 +159,14 @@ class _CallStats:
         most_calls = {}
         for name_tuple, count in self._call_counter.most_common(10):
             uid, method_name = name_tuple
-            most_calls[f"{uid.decode('utf-8')}.{method_name}"] = count
+            most_calls[f"{uid.decode('utf-8', 'backslashreplace')}.{method_name}"] = count
         slow_calls = {}
         for duration, uid, address, content in sorted(
             self._slow_calls, key=operator.itemgetter(0), reverse=True
         ):
             method_name, _batch, args, kwargs = content
             slow_calls[
-                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})"
+                f"[{address}]{uid.decode('utf-8', 'backslashreplace')}.{method_name}(args={args}, kwargs={kwargs})"
             ] = duration
         return {"most_calls": most_calls, "slow_calls": slow_calls}
 
-- 
2.43.0


From ce54e2e7d77b178939f6c23442b802b12adcf8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 47/57] fix: leave the tags of the caller unchanged when a
 metric is recorded

---
 .../xoscar/metrics/backends/prometheus/prometheus_metric.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
index e5eaa38..0d2f860 100644
--- a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
+++ b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
@@ -47,11 +47,7 @@ class PrometheusMetricMixin(AbstractMetric):
 
     def _record(self, value=1, tags: Optional[Dict[str, str]] = None):
         if self._metric:
-            if tags is not None:
-                tags.update(self._tags)
-            else:
-                tags = self._tags
-            self._metric.labels(**tags).set(value)
+            self._metric.labels(**{**(tags or {}), **self._tags}).set(value)
 
 
 class Counter(PrometheusMetricMixin, AbstractCounter):
-- 
2.43.0


From 0f8de33f3fb9a97c424acc54d9f2310ef2355876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:33 +0000
Subject: [PATCH 48/57] fix: keep the extras and the URL of a requirement whose
 marker applies

---
 python/xoscar/virtualenv/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 709eacd..313eb0a 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -302,7 +302,8 @@ def filter_requirements(requirements: list[str], **variables) -> list[str]:
             try:
                 req = Requirement(req_str)
                 if req.marker is None or req.marker.evaluate(env):
-                    result.append(f"{req.name}{req.specifier}")
+                    req.marker = None
+                    result.append(str(req))
                     continue
             except InvalidRequirement:
                 if is_custom_marker(marker_part):
-- 
2.43.0


From 654ca27cad1b4f009734e52d8178bbbde7d5e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:04 +0000
Subject: [PATCH 49/57] fix: do not skip the extras and the URLs of
 requirements already installed

---
 python/xoscar/virtualenv/uv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/xoscar/virtualenv/uv.py b/python/xoscar/virtualenv/uv.py
index 46ef777..1bdc6ef 100644
--- a/python/xoscar/virtualenv/uv.py
+++ b/python/xoscar/virtualenv/uv.py
@@ -168,6 +168,11 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 continue
 
             req = Requirement(spec_str)
+            if req.url:
+                # only what comes from this url satisfies it
+                keep.append(spec_str)
+                continue
+
             name = req.name.lower()
             cur_ver = installed.get(name)
 
@@ -176,6 +181,11 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 to_resolve.append(spec_str)
                 continue
 
+            if req.extras:
+                # what the extras require may not be installed
+                to_resolve.append(spec_str)
+                continue
+
             if not req.specifier:
                 # No version constraint, already satisfied
                 pinned[name] = cur_ver
-- 
2.43.0


From fb5222fc5c0f0e792e80872ceeaea26cd6800b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 50/57] fix: markers on the CUDA of a machine without CUDA do
 not hold instead of failing

---
 python/xoscar/virtualenv/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 313eb0a..d8c0fe0 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -255,6 +255,12 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 right = _eval(right_expr)
                 right = maybe_parse_cuda_arch(normalize_value(right))
 
+                if (left is None or right is None) and not isinstance(
+                    op_node, (ast.Eq, ast.NotEq)
+                ):
+                    # nothing to compare with, e.g. no cuda available
+                    return False
+
                 op_func = ops[type(op_node)]
                 if not op_func(left, right):
                     return False
-- 
2.43.0


From 0eb1aef975bcce9e6993b49d88f8e046b845807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:40 +0000
Subject: [PATCH 51/57] fix: compare versions with versions that have no dots
 in markers

---
 python/xoscar/virtualenv/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index d8c0fe0..a55628b 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -235,6 +235,9 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 return val
         return val
 
+    def parse_major(val):
+        return Version(val) if isinstance(val, str) and val.isdigit() else val
+
     def _eval(node):
         if isinstance(node, ast.BoolOp):
             left = _eval(node.values[0])
@@ -254,6 +257,9 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
             for op_node, right_expr in zip(node.ops, node.comparators):
                 right = _eval(right_expr)
                 right = maybe_parse_cuda_arch(normalize_value(right))
+                if isinstance(left, Version) or isinstance(right, Version):
+                    # versions without dots, e.g. "12"
+                    left, right = parse_major(left), parse_major(right)
 
                 if (left is None or right is None) and not isinstance(
                     op_node, (ast.Eq, ast.NotEq)
-- 
2.43.0


From 0badd686a94b493e8a5f18e88cd4338cbb3999b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 52/57] fix: destroying an actor twice at once must not remove
 the actor that got its id

---
 python/xoscar/backends/pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 149c87e..aa3f71d 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -668,6 +668,9 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             except KeyError:
                 raise ActorNotExist(f"Actor {actor_id} does not exist")
             await self._run_coro(message.message_id, actor.__pre_destroy__())
+            if self._actors.get(actor_id) is not actor:
+                # destroyed meanwhile, another actor may have got the id
+                raise ActorNotExist(f"Actor {actor_id} does not exist")
             del self._actors[actor_id]
 
             processor.result = ResultMessage(
-- 
2.43.0


From 3f267e4f96b805a111691c0a128e95152a63429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 53/57] fix: a pool that cannot be started must not leave its
 sub pools running

---
 python/xoscar/backends/pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index aa3f71d..37515cc 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1678,5 +1678,10 @@ async def create_actor_pool(
             "on_process_recover": on_process_recover,
         }
     )
-    await pool.start()
+    try:
+        await pool.start()
+    except BaseException:
+        # do not leave the sub pools running
+        await pool.stop()
+        raise
     return pool
-- 
2.43.0


From 645e14e84833368cc9392475222571c0f00aa924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 54/57] fix: create_actor_pool must accept the documented
 default of n_process

---
 python/xoscar/backends/indigen/backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/python/xoscar/backends/indigen/backend.py b/python/xoscar/backends/indigen/backend.py
index 39229d6..14ca078 100644
--- a/python/xoscar/backends/indigen/backend.py
+++ b/python/xoscar/backends/indigen/backend.py
@@ -45,7 +45,6 @@ class IndigenActorBackend(BaseActorBackend):
     ):
         from ..pool import create_actor_pool
 
-        assert n_process is not None
         return await create_actor_pool(
             address, pool_cls=MainActorPool, n_process=n_process, **kwargs
         )
-- 
2.43.0


From 625ed5c67d3fbde61783cfb4c3969dee1cb88d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:16 +0000
Subject: [PATCH 55/57] fix: alru_cache must not serve a cancelled computation
 as a result

---
 python/xoscar/aio/lru.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/aio/lru.py b/python/xoscar/aio/lru.py
index 2cdf207..7840074 100644
--- a/python/xoscar/aio/lru.py
+++ b/python/xoscar/aio/lru.py
@@ -184,11 +184,12 @@ def alru_cache(
 
                 exc = fut._exception
 
-                if exc is None or cache_exceptions:
+                # a cancelled computation has no result to give
+                if not fut.cancelled() and (exc is None or cache_exceptions):
                     _cache_hit(wrapped, key)
                     return fut.result()
 
-                # exception here and cache_exceptions == False
+                # cancelled, or exception here and cache_exceptions == False
                 wrapped._cache.pop(key)
 
             fut = loop.create_future()
-- 
2.43.0


From 020c4a41d48e1076b3f909ab9f6ea4f62d25986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:57 +0000
Subject: [PATCH 56/57] fix: an actor implementation must be constructed once,
 and its errors must show

A class registered with register_actor_implementation was constructed in
__new__ and then a second time by the type call, and a KeyError of its
constructor silently produced an instance of the abstract class instead.
---
 python/xoscar/api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index 41b751c..93a1ae7 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -387,10 +387,13 @@ class AsyncActorMixin:
         return cls.__name__
 
     def __new__(cls, *args, **kwargs):
-        try:
-            return _actor_implementation[cls](*args, **kwargs)
-        except KeyError:
+        impl_cls = _actor_implementation.get(cls)
+        if impl_cls is None:
             return super().__new__(cls, *args, **kwargs)
+        if issubclass(impl_cls, cls):
+            # python calls __init__ on an instance of cls that __new__ returns
+            return impl_cls.__new__(impl_cls, *args, **kwargs)
+        return impl_cls(*args, **kwargs)
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__()
-- 
2.43.0


From 4c2d40e665e834131ff792c58422d8fcfa789f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 57/57] fix: retry_callable of a coroutine function must raise
 the last error

A coroutine function that failed on every attempt made the wrapper return
None as if it had succeeded; the synchronous variant raises the last error.
---
 python/xoscar/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 3c2f6fb..3c21e78 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -423,12 +423,16 @@ def retry_callable(
         @functools.wraps(callable)
         async def retry_call(*args, **kwargs):
             num_retried = 0
+            ex = None
             while max_retries < 0 or num_retried < max_retries:
                 num_retried += 1
                 try:
                     return await callable_(*args, **kwargs)
-                except ex_type:
+                except ex_type as e:
+                    ex = e
                     await asyncio.sleep(wait_interval)
+            assert ex is not None
+            raise ex  # pylint: disable-msg=E0702
 
     else:
 
-- 
2.43.0

