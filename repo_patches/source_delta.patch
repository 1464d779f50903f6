From 018ca967fba833c3818520c4551381c8c8c97264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 001/158] fix: release the subscriptions of a removed link

A switch kept counting the in topics of a link after the link was gone, so the
provider was never told that the topic is no longer wanted.
---
 streamtasks/net/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..ed33276 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -238,10 +238,11 @@ class Switch:
 
     recv_topics = link.recv_topics
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
+    removed_in_topics = self.in_topics.remove_many(link.in_topics)
+    updated_in_topics = recv_topics - removed_topics - removed_in_topics
 
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
+    if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
+      await self.request_in_topics_change(set(updated_in_topics), removed_in_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
-- 
2.43.0


From ca3e388e51e736f45d35f9360ce91e34510313b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 002/158] fix: sending to a closed link must not take down the
 link the message came from

Forwarding to a link that was closed but not yet removed raised in the receiver
of the origin, which then removed the (healthy) origin link from the switch.
---
 streamtasks/net/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index ed33276..fc2e12f 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -253,8 +253,10 @@ class Switch:
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
-  async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
+    for link in links:
+      try: await link.send(message)
+      except ConnectionClosedError: pass # its own receiver removes the closed link
+  async def broadcast(self, message: Message): await self.send_to(message, list(self.link_manager.links))
 
   async def send_remove_in_topic(self, topic: int):
     await self.send_to(InTopicsChangedMessage(set(), set([topic])), [ conn for conn in self.link_manager.links if topic in conn.recv_topics ])
@@ -276,7 +278,7 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await conn.send(message)
+    for conn, message in change_map.items(): await self.send_to(message, [ conn ])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -284,7 +286,7 @@ class Switch:
     final_remove = self.in_topics.remove_many(message.remove)
 
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await origin.send(control_message)
+      await self.send_to(control_message, [ origin ])
 
     await self.request_in_topics_change(final_add, final_remove)
 
@@ -292,7 +294,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [ found_conn ])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
-- 
2.43.0


From cf9665f0d9636a9ea2b0c4ed819391f876d21669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 003/158] fix: keep a topic requested when its provider
 withdraws it

A provider withdrawing a topic left the request on its link: the topic was not
requested from the remaining providers, and the next provider to announce it
lost its connection to a KeyError (or a ValueError on an empty switch).
---
 streamtasks/net/__init__.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index fc2e12f..2176822 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -1,4 +1,4 @@
-from typing import Any, Callable, Union
+from typing import Any, Callable, Iterable, Union
 from streamtasks.env import DEBUG_SER
 from streamtasks.net.helpers import PricedIdTracker
 from streamtasks.net.serialization import RawData
@@ -236,13 +236,12 @@ class Switch:
   async def remove_link(self, link: Link):
     self.link_manager.remove_link(link)
 
-    recv_topics = link.recv_topics
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
     removed_in_topics = self.in_topics.remove_many(link.in_topics)
-    updated_in_topics = recv_topics - removed_topics - removed_in_topics
+    updated_in_topics = self._get_resub_topics(link.out_topics)
 
     if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), removed_in_topics)
+      await self.request_in_topics_change(updated_in_topics, removed_in_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
@@ -261,6 +260,16 @@ class Switch:
   async def send_remove_in_topic(self, topic: int):
     await self.send_to(InTopicsChangedMessage(set(), set([topic])), [ conn for conn in self.link_manager.links if topic in conn.recv_topics ])
 
+  def _get_resub_topics(self, topics: Iterable[int]) -> set[int]:
+    # subscribed topics, that are provided, but not requested from the best provider
+    resub_topics = set()
+    for topic in topics:
+      if topic in self.in_topics and topic in self.out_topics:
+        topic_provider = next((conn for conn in self.link_manager.links if topic in conn.recv_topics), None)
+        if topic_provider is None or topic_provider.out_topics.get(topic, float('inf')) > self.out_topics.get(topic):
+          resub_topics.add(topic)
+    return resub_topics
+
   async def request_in_topics_change(self, add_topics: set[int], remove_topics: set[int]):
     remove_topics_set = set(remove_topics)
     change_map: dict[Link, InTopicsChangedMessage] = {}
@@ -304,12 +313,7 @@ class Switch:
     if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
       await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
 
-    resub_topics = set()
-    for pt in message.add:
-      if pt.id in self.in_topics:
-        topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
-          resub_topics.add(pt.id)
+    resub_topics = self._get_resub_topics(pt.id for pt in message.add.union(message.remove))
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-- 
2.43.0


From baf9d3490da3ca4926e8556dd6102c9da3e493ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 004/158] fix: an id announced again with another cost replaces
 the earlier announcement

The switch counted the old cost forever, so an id whose cost changed once never
disappeared when its last provider withdrew it, and kept a cost nobody offers.
---
 streamtasks/net/__init__.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 2176822..8ceb8b4 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -116,22 +116,22 @@ class Link(ABC):
 
     elif isinstance(message, OutTopicsChangedMessage):
       otc_message: OutTopicsChangedMessage = message
-      message = OutTopicsChangedRecvMessage(
-        set(PricedId(pt.id, pt.cost + self._cost) for pt in otc_message.add),
-        set(PricedId(t, self.out_topics[t]) for t in otc_message.remove if t in self.out_topics))
-      for address in otc_message.remove: self.out_topics.pop(address, None)
-      for pt in message.add: self.out_topics[pt.id] = pt.cost
+      message = OutTopicsChangedRecvMessage(*self._apply_priced_ids_change(self.out_topics, otc_message.add, otc_message.remove))
 
     elif isinstance(message, AddressesChangedMessage):
       ac_message: AddressesChangedMessage = message
-      message = AddressesChangedRecvMessage(
-        set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add),
-        set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.addresses))
-      for address in ac_message.remove: self.addresses.pop(address, None)
-      for pa in message.add: self.addresses[pa.id] = pa.cost
+      message = AddressesChangedRecvMessage(*self._apply_priced_ids_change(self.addresses, ac_message.add, ac_message.remove))
 
     return message
 
+  def _apply_priced_ids_change(self, current: dict[int, int], add: set[PricedId], remove: set[int]) -> tuple[set[PricedId], set[PricedId]]:
+    removed = set(PricedId(id, current.pop(id)) for id in remove if id in current)
+    added = set(PricedId(pid.id, pid.cost + self._cost) for pid in add if current.get(pid.id, None) != pid.cost + self._cost)
+    # an id that is announced again with another cost replaces the previous announcement
+    removed.update(PricedId(pid.id, current.pop(pid.id)) for pid in added if pid.id in current)
+    for pid in added: current[pid.id] = pid.cost
+    return added, removed
+
 class TopicRemappingLink(Link): # NOTE: maybe this should just inherit a specific link...
   def __init__(self, link: Link, topic_id_map: dict[int, int]):
     super().__init__()
-- 
2.43.0


From f443f82d6139d77aad65ae830a3683aa96afb88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 005/158] fix: let an InTopic learn its cost

A link delivers announcements as OutTopicsChangedRecvMessage, which the receiver
of an InTopic did not look at, so its cost was never set.
---
 streamtasks/client/topic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..66abf0c 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -7,7 +7,7 @@ from streamtasks.utils import AsyncBool, AsyncTrigger
 from streamtasks.net.serialization import RawData
 from streamtasks.message.utils import get_timestamp_from_message
 from streamtasks.net import Message
-from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
+from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedRecvMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
 
 if TYPE_CHECKING:
   from streamtasks.client import Client
@@ -64,11 +64,10 @@ class _InTopicReceiver(Receiver[tuple[_InTopicAction, None | int | TopicControlD
   def _put_msg(self, action: _InTopicAction, data: None | int | TopicControlData | RawData): self._recv_queue.put_nowait((action, data))
 
   def on_message(self, message: Message):
-    if isinstance(message, OutTopicsChangedMessage):
-      if self._topic in message.remove: self._put_msg(_InTopicAction.SET_COST, None)
-      else:
-        new_cost = next((pid.cost for pid in message.add if pid.id == self._topic), None)
-        if new_cost is not None: self._put_msg(_InTopicAction.SET_COST, new_cost)
+    if isinstance(message, OutTopicsChangedRecvMessage):
+      new_cost = next((pid.cost for pid in message.add if pid.id == self._topic), None)
+      if new_cost is not None: self._put_msg(_InTopicAction.SET_COST, new_cost)
+      elif any(pid.id == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)
 
     if isinstance(message, TopicMessage) and message.topic == self._topic:
       if isinstance(message, TopicControlMessage): self._put_msg(_InTopicAction.SET_CONTROL, message.to_data())
-- 
2.43.0


From 9eec55e125b13b350fc786136a3fb4be92ec5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 006/158] fix: a link's receiver must not cancel itself while
 removing its link

remove_link runs in the receiving task it cancelled, so the first withdrawal
that had to wait for another link was never sent.
---
 streamtasks/net/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 8ceb8b4..a1d11dc 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -196,7 +196,8 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    task = self._link_recv_tasks.pop(link, None)
+    if task is not None and task is not asyncio.current_task(): task.cancel() # the receiving task removes its own link
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
-- 
2.43.0


From d16601bdf3ca71b1195124c67a44da95d9281e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 007/158] fix: a replaced announcement is only accounted for,
 not reported as removed

Follow-up of the replacement of announcements: forwarding raised costs would let
a network with cycles count up endlessly.
---
 streamtasks/net/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/helpers.py b/streamtasks/net/helpers.py
index eb81939..11a17a1 100644
--- a/streamtasks/net/helpers.py
+++ b/streamtasks/net/helpers.py
@@ -52,8 +52,11 @@ class PricedIdTracker:
     return final_removed, final_updated
 
   def change_many(self, add: Iterable[PricedId], remove: Iterable[PricedId]) -> tuple[set[PricedId], set[int]]:
+    added_ids = set(id.id for id in add)
+    added = self.add_many(add)
     removed, updated = self.remove_many(remove)
-    return merge_priced_topics(chain(iter(self.add_many(add)), iter(updated))), removed
+    updated = (id for id in updated if id.id not in added_ids) # replaced by the same link, only a lower cost is news
+    return merge_priced_topics(chain(iter(added), updated)), removed
 
 
 def ids_to_priced_ids(ids: set[int], cost: int = 0):
-- 
2.43.0


From 0b2324d2e94e9d4c6bddfdd49dbf8d5a9fb64ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 008/158] fix: tell a link that withdrew an id about the
 remaining providers

A switch does not announce an id to the link that provides it. When that link
withdrew the id, it was never told that others still provide it, so everything
behind it lost the topic or address for good.
---
 streamtasks/net/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index a1d11dc..d7ef942 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -314,6 +314,10 @@ class Switch:
     if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
       await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
 
+    # the origin has not been told about the other providers while it was the provider
+    fallback_topics = set(PricedId(pt.id, self.out_topics.get(pt.id)) for pt in message.remove if pt.id in self.out_topics and pt.id not in origin.out_topics)
+    if len(fallback_topics) > 0: await self.send_to(OutTopicsChangedMessage(fallback_topics, set()), [ origin ])
+
     resub_topics = self._get_resub_topics(pt.id for pt in message.add.union(message.remove))
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
@@ -322,6 +326,9 @@ class Switch:
     if len(addresses_added) > 0 or len(addresses_removed) > 0:
       await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])
 
+    fallback_addresses = set(PricedId(pa.id, self.addresses.get(pa.id)) for pa in message.remove if pa.id in self.addresses and pa.id not in origin.addresses)
+    if len(fallback_addresses) > 0: await self.send_to(AddressesChangedMessage(fallback_addresses, set()), [ origin ])
+
   async def handle_message(self, message: Message, origin: Link):
     if isinstance(message, TopicMessage):
       if isinstance(message, TopicControlMessage):
-- 
2.43.0


From 89c3748fdf1011037ec2afce2e59be20638aec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 009/158] fix: changes reach every link in the order they were
 applied

The handlers of two links interleave at every send that has to wait, so a link
could get an announcement after the withdrawal that followed it.
---
 streamtasks/net/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index d7ef942..06612a1 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -210,6 +210,7 @@ class Switch:
     self.out_topics = PricedIdTracker()
     self.addresses = PricedIdTracker()
     self.stream_controls: dict[int, TopicControlData] = {}
+    self._change_lock = asyncio.Lock() # changes must reach every link in the order they were applied
   def __del__(self): self.link_manager.cancel_all()
 
   async def add_local_connection(self) -> Link:
@@ -217,6 +218,12 @@ class Switch:
     await self.add_link(a)
     return b
   async def add_link(self, link: Link):
+    async with self._change_lock: await self._add_link(link)
+
+  async def remove_link(self, link: Link):
+    async with self._change_lock: await self._remove_link(link)
+
+  async def _add_link(self, link: Link):
     switch_out_topics = set(self.out_topics.items())
     if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
 
@@ -234,7 +241,7 @@ class Switch:
 
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
-  async def remove_link(self, link: Link):
+  async def _remove_link(self, link: Link):
     self.link_manager.remove_link(link)
 
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
@@ -337,11 +344,11 @@ class Switch:
     elif isinstance(message, AddressedMessage):
       await self.on_addressed_message(message, origin)
     elif isinstance(message, InTopicsChangedMessage):
-      await self.on_in_topics_changed(message, origin)
+      async with self._change_lock: await self.on_in_topics_changed(message, origin)
     elif isinstance(message, OutTopicsChangedRecvMessage):
-      await self.on_out_topics_changed(message, origin)
+      async with self._change_lock: await self.on_out_topics_changed(message, origin)
     elif isinstance(message, AddressesChangedRecvMessage):
-      await self.on_addresses_changed(message, origin)
+      async with self._change_lock: await self.on_addresses_changed(message, origin)
     else:
       logging.warning(f"Unhandled message {message}")
 
-- 
2.43.0


From d87f4279835562e47574e8e0dd4a44c289f0a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 010/158] fix: a forced release withdraws only what is
 registered

IdTracker.remove_many(force=True) reported every id it was given as removed (and
failed on one-shot iterables), so ids nobody registered were withdrawn.
---
 streamtasks/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..e35d3d0 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -51,8 +51,7 @@ class IdTracker:
     return final
   def remove_many(self, ids: Iterable[int], force: bool = False):
     if force:
-      for id in ids: self._map.pop(id, None)
-      return ids
+      return set(id for id in ids if self._map.pop(id, 0) > 0)
     else:
       final = set()
       for id in ids:
-- 
2.43.0


From 2bf8b7c79ac6fc8a069c9025a05a0fabb6fbda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 011/158] fix: a byte that breaks the sync word may start the
 next one

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..c045c76 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -158,7 +158,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From e0f2f05a6ad4820785bfce26b3947e1a7c4795f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 012/158] fix: every connection attempt has to present the
 credentials

---
 streamtasks/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index c045c76..ff4b0bf 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -103,6 +103,7 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
+      extra_data = dict(extra_data) # shared by all connections of the server
       server_auth = extra_data.pop("auth", None)
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
-- 
2.43.0


From 88333fa4ccfe9a0d7b36265fe0e07398c3aa9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 013/158] fix: a link is closed when the other side has closed
 it

---
 streamtasks/net/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 06612a1..1cbbd53 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -96,6 +96,9 @@ class Link(ABC):
       except asyncio.CancelledError as e:
         if len(e.args) > 0 and isinstance(e.args[0], ConnectionClosedError): raise e.args[0]
         else: raise e
+      except ConnectionClosedError:
+        self.close() # closed by the other side
+        raise
       finally: self._receiver = None
     return message
 
-- 
2.43.0


From a3cf250234ff4aaf1afe99b68f069ca7feb795f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 014/158] fix: a server with open connections can be stopped

---
 streamtasks/connection.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index ff4b0bf..e723f27 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -216,15 +216,34 @@ class ServerBase(Worker):
     self._connection_count_trigger.trigger()
 
 class StreamServerBase(ServerBase):
+  def __init__(self, cost: int, handshake_data: dict):
+    super().__init__(cost, handshake_data)
+    self._open: set[RawConnection | Link] = set()
+
+  async def serve(self, server: asyncio.Server):
+    try: await asyncio.Future()
+    finally:
+      server.close()
+      for connection in list(self._open): connection.close() # the server is only closed when its connections are
+      await server.wait_closed()
+
   async def on_connection(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter):
+    link: Link | None = None
+    connection = RawStreamConnection(reader, writer)
+    self._open.add(connection)
     try:
-      connection = RawStreamConnection(reader, writer)
       await connection.init_server(self.handshake_data)
       link = RawConnectionLink(connection, self.cost)
+      self._open.add(link)
+      link.on_closed.append(functools.partial(self._open.discard, link))
       await self.switch.add_link(link)
+      if link.closed: return # in case it closed already
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
-    except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
+    except BaseException as e:
+      logging.warning(f"Failed to initialize connection. Error: {e}")
+      if link is not None: link.close()
+    finally: self._open.discard(connection)
 
 class RawWebsocketConnection(RawConnection):
   def __init__(self, socket: websockets.WebSocketCommonProtocol) -> None:
@@ -260,6 +279,7 @@ class WebsocketServer(ServerBase):
       await connection.init_server(self.handshake_data)
       link = RawConnectionLink(connection, self.cost)
       await self.switch.add_link(link)
+      if link.closed: return # in case it closed already
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
       link.on_closed.append(close_event.set)
@@ -278,7 +298,7 @@ class TCPSocketServer(StreamServerBase):
 
   async def run_server(self):
     server = await asyncio.start_server(self.on_connection, self.host, self.port)
-    async with server: await server.serve_forever()
+    await self.serve(server)
 
 class UnixSocketServer(StreamServerBase):
   def __init__(self, path: str, cost: int, handshake_data: dict):
@@ -288,7 +308,7 @@ class UnixSocketServer(StreamServerBase):
 
   async def run_server(self):
     server = await asyncio.start_unix_server(self.on_connection, self.path)
-    async with server: await server.serve_forever()
+    await self.serve(server)
 
 def get_node_socket_path(node_name: str | None):
   if node_name is None: node_name = NODE_NAME()
-- 
2.43.0


From fc3b48d719b137e91317c7f72a1239257207235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 015/158] fix: websocket connections to IPv6 addresses

---
 streamtasks/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index e723f27..404097f 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -52,7 +52,8 @@ class WebsocketConnectionData(NetworkConnectionData):
   @property
   def uri(self):
     scheme = "wss" if self.secure else "ws"
-    return f"{scheme}://{self.hostname}:{self.port}"
+    hostname = f"[{self.hostname}]" if ":" in self.hostname else self.hostname # IPv6
+    return f"{scheme}://{hostname}:{self.port}"
 
 class AutoReconnector(Worker):
   def __init__(self, connect_fn: Callable[[], Awaitable[Link]], delay: float = 1):
-- 
2.43.0


From 837f40f8bc1b74437ff47d4b9a0722fc31712e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 016/158] fix: reconnecting waits for the delay and survives
 failed attempts

---
 streamtasks/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 404097f..5c962f5 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -75,9 +75,9 @@ class AutoReconnector(Worker):
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
           await self._async_connected.wait(False)
-          await asyncio.wait(self.delay)
-          logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): pass
+        except (ConnectionClosedError, OSError, websockets.WebSocketException): pass
+        await asyncio.sleep(self.delay)
+        logging.info("reconnecting")
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From 1327a14e6a81a0d61d8c61990d9f6928282f6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 017/158] fix: an abandoned recv must not swallow a message or
 break the connection

---
 streamtasks/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 5c962f5..7a24821 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -87,6 +87,7 @@ class RawConnection(ABC):
     super().__init__()
     self._send_lock = asyncio.Lock()
     self._recv_lock = asyncio.Lock()
+    self._recv_task: asyncio.Task[bytes] | None = None
 
   async def init_client(self, extra_data: dict):
     try:
@@ -122,7 +123,11 @@ class RawConnection(ABC):
       await asyncio.shield(self._send(data))
   async def recv(self):
     async with self._recv_lock:
-      return await asyncio.shield(self._recv())
+      # when cancelled, the message goes to the next recv
+      if self._recv_task is None: self._recv_task = asyncio.create_task(self._recv())
+      await asyncio.wait([self._recv_task])
+      recv_task, self._recv_task = self._recv_task, None
+      return recv_task.result()
 
   @abstractmethod
   async def _send(self, data: bytes): pass
-- 
2.43.0


From 0e2dcd225c57f83aaa44a9251b6aa6d260bbab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 018/158] fix: malformed content must not stop a client from
 receiving

---
 streamtasks/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..45a7da6 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -1,5 +1,6 @@
 from typing import Iterable, Optional, Any, Union
 import asyncio
+import logging
 from streamtasks.client.discovery import request_addresses
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.topic import InTopic, InTopicSynchronizer, OutTopic, InTopicsContext, OutTopicsContext, SynchronizedInTopic
@@ -137,6 +138,7 @@ class Client:
         if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
         if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
         for receiver in self._receivers:
-          receiver.on_message(message)
+          try: receiver.on_message(message)
+          except Exception as e: logging.warning(f"Failed to handle message. Error: {e}") # malformed content
     finally:
       self._receive_task = None
-- 
2.43.0


From b21aa1a2a6bf6e99be193770d34734ea232cdf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 019/158] fix: a receiver enabled while the last one is
 disabled must receive

---
 streamtasks/client/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index 45a7da6..09265ff 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -115,13 +115,17 @@ class Client:
 
   async def enable_receiver(self, receiver: Receiver):
     self._receivers.append(receiver)
-    self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())
+    self._start_receiving()
   async def disable_receiver(self, receiver: Receiver):
     self._receivers.remove(receiver)
     if len(self._receivers) == 0 and self._receive_task is not None:
       self._receive_task.cancel()
       try: await self._receive_task
       except asyncio.CancelledError: pass
+      self._start_receiving() # a receiver may have been enabled in the meantime
+
+  def _start_receiving(self):
+    if len(self._receivers) > 0 and self._receive_task is None: self._receive_task = asyncio.create_task(self._task_receive())
 
   def set_address_name(self, name: str, address: Optional[int]):
     if address is None: self._address_resolver_cache.pop(name, None)
-- 
2.43.0


From fd38b54852068e23e47f8edcf113bbe61e746003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 020/158] fix: a name that is given up must not stay in the
 cache of its holder

---
 streamtasks/client/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..95b8bb1 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -169,7 +169,7 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     yield
   finally:
     await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
-- 
2.43.0


From f042efb31925215b90dd05bf4f6db7e862cd3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 021/158] fix: a name can be given to the address 0

---
 streamtasks/client/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 95b8bb1..f7038af 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -161,7 +161,7 @@ async def get_topic_space_translation(client: 'Client', topic_space_id: int, top
 
 @asynccontextmanager
 async def address_name_context(client: 'Client', name: str, address: int | None = None):
-  address = address or client.address
+  address = client.address if address is None else address
   if address is None: raise ValueError("Missing address!")
   try:
     await client.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name=name, address=address).model_dump())
-- 
2.43.0


From 4304a9955e71a3d7a3ce1e1899aeb15c3072743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 022/158] fix: the priority of a topic applies to all of its
 messages

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 66abf0c..5cc6c50 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -145,7 +145,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    if topic_id in self._done_topics: self._done_topics.remove(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From 0ef296d43a2f8d4747d06cfc6fbdca1cfce9628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 023/158] fix: messages sent before the end of a stream are
 delivered

---
 streamtasks/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index e35d3d0..3c8a8fe 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -257,16 +257,16 @@ class AsyncConsumer(Generic[T1]):
   def unregister(self): self._producer._consumers.remove(self)
 
   async def get(self):
-    if len(self._queue) != 0: return self._queue.popleft()
-    if self._closed: raise EOFError()
-    _fut = self._trigger.wait()
-    async with self._producer:
-      while len(self._queue) == 0 and not self._closed:
-        await _fut
-        _fut = self._trigger.wait()
-      # TODO we need to do this in here to prevent double deques
+    while len(self._queue) == 0:
       if self._closed: raise EOFError()
-      return self._queue.popleft()
+      _fut = self._trigger.wait()
+      try:
+        async with self._producer:
+          while len(self._queue) == 0 and not self._closed:
+            await _fut
+            _fut = self._trigger.wait()
+      except EOFError: self._closed = True # messages may still be queued
+    return self._queue.popleft()
 
   def put(self, e: T1):
     if self.test_message(e):
-- 
2.43.0


From a4b0f8e59d09cda0751277ade04aa12e66a53b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 024/158] fix: a producer that is not running can be closed

---
 streamtasks/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 3c8a8fe..c805f75 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -177,8 +177,8 @@ class AsyncProducer(Generic[T0]):
 
   async def close(self):
     self._on_ended()
-    self._stop()
     if self._task is not None:
+      self._stop()
       try: await self.wait_done()
       except EOFError: pass
 
@@ -221,7 +221,7 @@ class AsyncMPProducer(AsyncProducer[T0]):
   def __init__(self) -> None:
     super().__init__()
     self.stop_event = threading.Event()
-    self._loop: asyncio.BaseEventLoop
+    self._loop: asyncio.BaseEventLoop | None = None
     self._lock = asyncio.Lock()
 
   async def run(self):
@@ -231,7 +231,9 @@ class AsyncMPProducer(AsyncProducer[T0]):
   @abstractmethod
   def run_sync(self): pass
   def send_message(self, message: Any): self._loop.call_soon_threadsafe(super().send_message, message)
-  def close_consumers(self): self._loop.call_soon_threadsafe(super().close_consumers)
+  def close_consumers(self):
+    if self._loop is None: super().close_consumers() # has never been run
+    else: self._loop.call_soon_threadsafe(super().close_consumers)
   async def wait_done(self):
     try: await super().wait_done()
     finally:
-- 
2.43.0


From 818a50bbe07f63641239e285e2280068aaba1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 025/158] fix: an awaitable id tracker supports forced removal

---
 streamtasks/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c805f75..10217f0 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -79,8 +79,8 @@ class AwaitableIdTracker(IdTracker):
       if event is not None: event.set()
     return added
 
-  def remove_many(self, ids: Iterable[int]):
-    removed = super().remove_many(ids)
+  def remove_many(self, ids: Iterable[int], force: bool = False):
+    removed = super().remove_many(ids, force=force)
     for id in removed:
       event = self._waiting_ids_removed.pop(id, None)
       if event is not None: event.set()
-- 
2.43.0


From 2d4f590d98fa7db511a5a3e86a79f5216f15ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 026/158] fix: unregistered task hosts reach their receiver

---
 streamtasks/system/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..6bd3cdb 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -413,9 +413,9 @@ class TaskHostRegisteredReceiver(BroadcastReceiver[TaskHostRegistration]):
   def transform_data(self, _: str, data: RawData) -> TaskInstance:
     return TaskHostRegistration.model_validate(data.data)
 
-class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithId]):
-  def transform_data(self, _: str, data: RawData) -> ModelWithId:
-    return ModelWithId.model_validate(data.data)
+class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithStrId]):
+  def transform_data(self, _: str, data: RawData) -> ModelWithStrId:
+    return ModelWithStrId.model_validate(data.data)
 
 class TaskManagerClient:
   def __init__(self, client: Client, address_name: str = NetworkAddressNames.TASK_MANAGER) -> None:
-- 
2.43.0


From 381823386688ca9ea8be7c5d3674b467dca8902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 027/158] fix: a task host with running tasks can be stopped

---
 streamtasks/system/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 6bd3cdb..fd3de6a 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,7 +213,7 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      shutdown_tasks: list[asyncio.Task] = list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
       for task in self.tasks.values(): task.cancel()
       if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
       await self.shutdown()
-- 
2.43.0


From f7f8ce34a42e0583850698c3ca8f9819fe577a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 028/158] fix: the end of the tasks of an unregistered host is
 reported

---
 streamtasks/system/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index fd3de6a..6d584c9 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -306,7 +306,11 @@ class TaskManager(Worker):
     async def _(message_data: Any):
       data = ModelWithStrId.model_validate(message_data)
       self.task_hosts.pop(data.id, None)
-      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }
+      lost_tasks = [ task for task in self.tasks.values() if task.host_id == data.id ]
+      for task in lost_tasks:
+        self.tasks.pop(task.id)
+        task.status = TaskStatus.stopped
+        await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))
       await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED, RawData(data.model_dump()))
 
     await server.run()
-- 
2.43.0


From 4c276c8d92079a7ce29f418e9a42cbe6b7e6a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 029/158] fix: a task cannot be started twice

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 6d584c9..c15523e 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -373,6 +373,7 @@ class TaskManager(Worker):
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
         task_host = self.task_hosts[task_instance.host_id]
+        if task_instance.status is not TaskStatus.scheduled: return await req.respond_error(new_fetch_body_bad_request("The task was already started!"))
 
         task_start_request = TaskStartRequest(
           id=task_instance.id,
-- 
2.43.0


From 3ad6acb836f27aed3c582a1c89c8bb389b8ad84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 030/158] fix: only existing deployments that are not running
 can be scheduled

---
 streamtasks/system/task_web.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..1da5734 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -268,9 +268,13 @@ class TaskWebBackend(Worker):
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
+      if (await self.store.get_deployment(deployment_id)).status != "offline": raise ValueError("Deployment is running!")
       tasks = await self.store.all_tasks_in_deployment(deployment_id)
       topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
       topic_space_id, _ = await register_topic_space(self.client, topic_ids)
+      if deployment_id in self.store.running_deployments: # scheduled in the meantime
+        await delete_topic_space(self.client, topic_space_id)
+        raise ValueError("Deployment is running!")
       running_deployment = RunningDeployment(id=deployment_id, topic_space_id=topic_space_id, task_instances={}, task_instance_configs={})
       self.store.set_running_deployment(running_deployment)
 
-- 
2.43.0


From 30516c1a6f30547548730ffe5b682d4fefadfe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 031/158] fix: a task of a running deployment cannot be moved
 out of it

---
 streamtasks/system/task_web.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 1da5734..1a09ad9 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -180,11 +180,9 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
+    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From 29e83ba094e8c69a0e86793bfdef2438a6f08080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 032/158] fix: a started deployment is running and is not
 started again

---
 streamtasks/system/task_web.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 1a09ad9..eeb1d08 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -290,6 +290,8 @@ class TaskWebBackend(Worker):
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
       running_deployment = self.store.get_running_deployment(deployment_id)
+      if running_deployment.started: raise ValueError("Deployment was already started!")
+      running_deployment.started = True
 
       async def start_task(task_id: UUID, task_instance: TaskInstance):
         new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
-- 
2.43.0


From 32959529b86aa4fd0616e80a8bb2766f9ce3534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 033/158] fix: a task that cannot be started is reported as
 failed

---
 streamtasks/system/task_web.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index eeb1d08..bc88d64 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -15,7 +15,7 @@ from streamtasks.asgiserver import ASGIHandler, ASGIRouter, ASGIServer, HTTPCont
 from streamtasks.client import Client
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.discovery import address_name_context, delete_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name
-from streamtasks.client.fetch import FetchRequest, FetchServer
+from streamtasks.client.fetch import FetchError, FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
 from streamtasks.client.signal import SignalServer
 from streamtasks.env import get_data_sub_dir
@@ -24,7 +24,7 @@ from streamtasks.net.serialization import RawData
 from streamtasks.net.utils import str_to_endpoint
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
-from streamtasks.system.task import ModelWithStrId, TaskConstants, MetadataDict, MetadataFields, ModelWithId, TaskHostRegistration, TaskHostRegistrationList, TaskInstance, TaskManagerClient, TaskNotFoundError
+from streamtasks.system.task import ModelWithStrId, TaskConstants, MetadataDict, MetadataFields, ModelWithId, TaskHostRegistration, TaskHostRegistrationList, TaskInstance, TaskManagerClient, TaskNotFoundError, TaskStatus
 from streamtasks.utils import get_node_name_id, make_json_serializable, wait_with_dependencies
 from streamtasks.worker import Worker
 import importlib.resources
@@ -294,7 +294,8 @@ class TaskWebBackend(Worker):
       running_deployment.started = True
 
       async def start_task(task_id: UUID, task_instance: TaskInstance):
-        new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+        try: new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+        except FetchError as e: new_task_instance = task_instance.model_copy(update={ "status": TaskStatus.failed, "error": str(e) })
         running_deployment.task_instances[task_id] = new_task_instance
       await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
 
-- 
2.43.0


From 42e1ca977a04937c37f76fd1a9b505554f5bb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 034/158] fix: a task that was not started yet can be cancelled

---
 streamtasks/system/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index c15523e..f035238 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -400,6 +400,11 @@ class TaskManager(Worker):
       try:
         body = TMTaskRequestBase.model_validate(req.body)
         task_inst = self.tasks[body.id]
+        if task_inst.status is TaskStatus.scheduled: # not known to its host yet
+          self.tasks.pop(task_inst.id)
+          task_inst.status = TaskStatus.stopped
+          await self.bc_server.broadcast(get_namespace_by_task_id(task_inst.id), RawData(task_inst.model_dump()))
+          return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
         task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
-- 
2.43.0


From 68f1c0ee12a17bb850f53f3350ea618d367d403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 035/158] fix: reports of tasks that end right after they were
 started are not missed

---
 streamtasks/system/task_web.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index bc88d64..01778df 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -282,7 +282,9 @@ class TaskWebBackend(Worker):
         running_deployment.task_instance_configs[task_instance.id] = task.config
       await asyncio.gather(*(schedule_task(task) for task in tasks))
 
-      self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
+      subscribed = asyncio.Event()
+      self.deployment_task_listeners[deployment_id] = listener_task = asyncio.create_task(self.run_deployment_task_listener(running_deployment, subscribed))
+      await wait_with_dependencies(subscribed.wait(), [listener_task]) # the tasks may be started once this is done
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
@@ -479,14 +481,15 @@ class TaskWebBackend(Worker):
 
     await ASGIAppRunner(self.client, app).run()
 
-  async def run_deployment_task_listener(self, deployment: RunningDeployment):
-    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):
+  async def run_deployment_task_listener(self, deployment: RunningDeployment, subscribed: asyncio.Event):
+    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment, subscribed):
       deployment.task_instances[task_id] = task_instance
 
-  async def receive_deployment_task_instance_updates(self, deployment: RunningDeployment):
+  async def receive_deployment_task_instance_updates(self, deployment: RunningDeployment, subscribed: asyncio.Event | None = None):
     task_instance_ids = [ ti.id for ti in deployment.task_instances.values() ]
     task_instance_id_map = { ti.id: task_id for task_id, ti in deployment.task_instances.items() }
     async with self.tm_client.task_receiver(task_instance_ids) as receiver:
+      if subscribed is not None: subscribed.set()
       while True:
         task_instance = await receiver.get()
         if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None:
-- 
2.43.0


From f64e285ed479c62972b6bc195ca2daa8493433f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 036/158] fix: a raw data buffer removes its files

---
 streamtasks/rawdatabuffer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..a8ba9f3 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -6,13 +6,13 @@ from streamtasks.net.serialization import RawData
 class RawDataBuffer:
   def __init__(self) -> None:
     self._key_counter: int = 0
-    self._db_file = tempfile.mktemp(".db")
-    self._db = dbm.open(self._db_file, "c")
+    self._db_dir = tempfile.TemporaryDirectory() # NOTE: how many files there are and their names depend on the dbm
+    self._db = dbm.open(os.path.join(self._db_dir.name, "buffer"), "c")
     self._index_map: list[str] = []
 
   def __del__(self):
     self._db.close()
-    os.remove(self._db_file)
+    self._db_dir.cleanup()
 
   def clear(self):
     self._db.clear()
-- 
2.43.0


From a5b0f377356158b4d8bc93966fd376909d6f09e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 037/158] fix: a raw data buffer can be cleared

---
 streamtasks/rawdatabuffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index a8ba9f3..33b537d 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -15,7 +15,7 @@ class RawDataBuffer:
     self._db_dir.cleanup()
 
   def clear(self):
-    self._db.clear()
+    for key in self._index_map: del self._db[key] # NOTE: not every dbm has clear()
     self._index_map.clear()
 
   def append(self, data: RawData):
-- 
2.43.0


From 151909534e2482965a9ad604ccba501b3ca217d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 038/158] fix: the secret manager has a name of its own

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From e9aaa7bd8f99b2dbf9fc8604951c81657c86eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 039/158] fix: unknown secrets are reported as not found

---
 streamtasks/system/secret_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..1438d03 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -39,7 +39,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From 07d334bb19ac9371aaf16eb19e61ffe570b4b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 040/158] fix: secrets can be used over serialising connections

---
 streamtasks/system/secret_manager.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index 1438d03..5ba6a9b 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -38,7 +38,7 @@ class SecretManager(TaskWebPathHandler):
     async def _(req: FetchRequest):
       try:
         data = SecretRequestModel.model_validate(req.body)
-        await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
+        await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump(mode="json"))
       except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
@@ -46,7 +46,7 @@ class SecretManager(TaskWebPathHandler):
       data = SecretModel.model_validate(req.body)
       self.db.update([e for e in self.db.entries if e.id != data.id] + [data])
       self.db.save()
-      await req.respond(data.model_dump())
+      await req.respond(data.model_dump(mode="json"))
 
     @server.route("delete_secret")
     async def _(req: FetchRequest):
@@ -95,11 +95,11 @@ class SecretManagerClient:
     self.client = client
 
   async def resolve_secret(self, id: UUID4):
-    result = await self.client.fetch(self.address_name, "get_secret", SecretRequestModel(id=id).model_dump())
+    result = await self.client.fetch(self.address_name, "get_secret", SecretRequestModel(id=id).model_dump(mode="json"))
     return SecretModel.model_validate(result).value
 
   async def delete_secret(self, id: UUID4):
-    await self.client.fetch(self.address_name, "delete_secret", SecretRequestModel(id=id).model_dump())
+    await self.client.fetch(self.address_name, "delete_secret", SecretRequestModel(id=id).model_dump(mode="json"))
 
   async def put_secret(self, id: UUID4, value: str):
-    await self.client.fetch(self.address_name, "put_secret", SecretModel(id=id, value=value).model_dump())
+    await self.client.fetch(self.address_name, "put_secret", SecretModel(id=id, value=value).model_dump(mode="json"))
-- 
2.43.0


From 8b8807f2694fe8d0d9993afae5e841a0c53ebf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 041/158] fix: requests no handler of a stack handles are
 passed on

---
 streamtasks/asgiserver.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..31ce57d 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -61,10 +61,7 @@ def asgi_type_handler(supported_types: set[str]):
   return decorator
 
 def asgi_scope_set_state(scope: ASGIScope, state: dict[str, Any]):
-  new_scope: ASGIScope = { **scope }
-  if not "state" in new_scope: new_scope["state"] = {}
-  new_scope["state"].update(state)
-  return new_scope
+  return { **scope, "state": { **scope.get("state", {}), **state } }
 
 def asgi_scope_get_next_fn(scope: ASGIScope) -> ASGIHandler:
   if "state" in scope and SN_NEXT_FN in scope["state"] and callable(scope["state"][SN_NEXT_FN]): return scope["state"][SN_NEXT_FN]
@@ -335,10 +332,14 @@ def transport_context_handler(fn: Callable[[HTTPContext], Awaitable[Any]]):
   return decordator
 
 class ASGINext:
-  def __init__(self, handlers: list[ASGIHandler]) -> None: self._handlers = handlers
+  def __init__(self, handlers: list[ASGIHandler], outer_next: ASGIHandler | None = None) -> None:
+    self._handlers = handlers
+    self._outer_next = outer_next
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
-    if len(self._handlers) == 0: raise NoHandlerError()
-    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers[1:]) })
+    if len(self._handlers) == 0:
+      if self._outer_next is None: raise NoHandlerError()
+      return await self._outer_next(scope, receive, send)
+    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers[1:], self._outer_next) })
     await self._handlers[0](new_scope, receive, send)
 
 class ASGIHandlerStack:
@@ -349,7 +350,7 @@ class ASGIHandlerStack:
   def handler(self, handler: ASGIHandler):
     self.add_handler(handler)
     return handler
-  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend): await ASGINext(self._handlers)(scope, receive, send)
+  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend): await ASGINext(self._handlers, asgi_scope_get_next_fn(scope))(scope, receive, send)
 
 class ASGIServer(ASGIHandlerStack):
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
-- 
2.43.0


From f7161c34bc2b97e160e164fecca9f508af255ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 042/158] fix: named topics with any name can be reached over
 the web api

---
 streamtasks/system/named_topic_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index b3814b1..8626be9 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -1,6 +1,5 @@
 import asyncio
 import os
-from urllib.parse import unquote
 from pydantic import BaseModel, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
@@ -95,18 +94,18 @@ class NamedTopicManager(TaskWebPathHandler):
       self.db.save()
       await ctx.respond_json(data.model_dump())
 
-    @router.get("/api/named-topic/{name}")
+    @router.get("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
       try:
-        name = unquote(ctx.params["name"])
+        name = ctx.params["name"]
         await ctx.respond_json(next(e for e in self.db.entries if e.name == name).model_dump())
       except StopIteration: await ctx.respond_status(404)
 
-    @router.delete("/api/named-topic/{name}")
+    @router.delete("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
-      name = unquote(ctx.params["name"])
+      name = ctx.params["name"]
       self.db.update(e for e in self.db.entries if e.name != name)
       self.db.save()
       await ctx.respond_status(200)
-- 
2.43.0


From f82e5d1ff39b40ca5891898a8aefb046d95c9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 043/158] fix: function tasks can ask for the timestamp

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 86b52a4..d9b8efd 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -331,7 +331,7 @@ class FnTaskConfig:
     if "config" in params: config_type = params.pop("config").annotation
     if "state" in params: state_type = params.pop("state").annotation
     if "timestamp" in params:
-      if not typing.get_origin(params.pop("timestamp").annotation) is int: raise ValueError("timestamp must be of type int!")
+      if params.pop("timestamp").annotation is not int: raise ValueError("timestamp must be of type int!")
       has_timestamp = True
 
     inputs = [ FnTaskInputConfig.from_parameter(param) for param in params.values() ]
-- 
2.43.0


From 763be1f1c02c995ee6b8bf144d446b362dbc1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 044/158] fix: the state of a function task is checked, not its
 config

---
 streamtasks/system/fntask.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d9b8efd..2dc1370 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -55,8 +55,10 @@ _DATA_TO_VALUE: dict[type, Callable[[Any], tuple[int, Any]]] = {
 }
 
 def _validate_object_create_empty(obj_type: type[object]):
-  sig = inspect.signature(obj_type)
-  return all(p.default is not inspect._empty for name, p in sig.parameters.items() if name != "self")
+  try: inspect.signature(obj_type).bind()
+  except TypeError: return False
+  except ValueError: pass # builtin types without a signature, like dict
+  return True
 def _input_name_to_input_key(name: str): return "_in_tid_" + name
 def _output_index_to_input_key(idx: int): return "_out_tid_" + str(idx)
 def _validate_io_type(t: type):
@@ -295,7 +297,7 @@ class FnTaskConfig:
         raise ValueError("The config class needs to have a constructor allowing the creation of an instance without any parameters.")
       self.config_type_adapter # make sure this can be created
 
-    if self.state_type is not None and not _validate_object_create_empty(self.config_type):
+    if self.state_type is not None and not _validate_object_create_empty(self.state_type):
       raise ValueError("The state class needs to have a constructor allowing the creation of an instance without any parameters.")
 
   async def execute(self, timestamp: int, params: dict[str, Any], state: Any, config: Any) -> tuple:
-- 
2.43.0


From 2fb0580902a510efaa2bd8abae39efb7fce3d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 045/158] fix: function tasks without outputs can be called

---
 streamtasks/system/fntask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 2dc1370..a51147f 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -314,6 +314,7 @@ class FnTaskConfig:
       if self.thread_safe: result = await loop.run_in_executor(None, fn)
       else: result = fn()
 
+    if len(self.outputs) == 0: return ()
     if isinstance(result, tuple): return result
     else: return (result,)
 
-- 
2.43.0


From 6df75881af10e797eb88a933eb52d1cfe60ed488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 046/158] fix: the config of a function task can be a pydantic
 model

---
 streamtasks/system/fntask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index a51147f..a5dac0b 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -69,7 +69,9 @@ def _pydantic_type_from_schema(schema: dict):
 def _pydantic_schema_to_editor_fields(schema: dict):
   fields = []
   inner_schema = schema.get("schema", {})
-  for field in inner_schema.get("fields", []):
+  inner_fields = inner_schema.get("fields", [])
+  if isinstance(inner_fields, dict): inner_fields = [ { **field, "name": name } for name, field in inner_fields.items() ] # pydantic models
+  for field in inner_fields:
     field_name = field["name"]
     field_type_name = _pydantic_type_from_schema(field)
     if field_type_name == "int": fields.append(EditorFields.number(field_name, is_int=True))
-- 
2.43.0


From 86a7e4dd4d20e654bf1006bb95b0b43045159922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 047/158] fix: functions that cannot be called as a task are
 refused

---
 streamtasks/system/fntask.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index a5dac0b..a482cdf 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -2,6 +2,7 @@ import asyncio
 import contextlib
 from dataclasses import dataclass
 import functools
+import itertools
 import logging
 from typing import Any, Callable, Annotated
 import typing
@@ -294,6 +295,9 @@ class FnTaskConfig:
     return { **_FnTaskStdConfig().model_dump(), **data}
 
   def validate(self):
+    for param in inspect.signature(self.fn).parameters.values():
+      if param.kind not in (inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY):
+        raise ValueError(f"The parameter '{param.name}' can not be passed by its name!")
     if self.config_type is not None:
       if not _validate_object_create_empty(self.config_type):
         raise ValueError("The config class needs to have a constructor allowing the creation of an instance without any parameters.")
@@ -302,6 +306,11 @@ class FnTaskConfig:
     if self.state_type is not None and not _validate_object_create_empty(self.state_type):
       raise ValueError("The state class needs to have a constructor allowing the creation of an instance without any parameters.")
 
+    config_keys = self.default_config().keys()
+    for io in itertools.chain(self.inputs, self.outputs):
+      for key in io.io_map:
+        if key not in config_keys: raise ValueError(f"The io map refers to '{key}', which is not in the config!")
+
   async def execute(self, timestamp: int, params: dict[str, Any], state: Any, config: Any) -> tuple:
     params = {**params}
     if self.has_timestamp: params["timestamp"] = timestamp
-- 
2.43.0


From 975b57dff9a42074e89cfbd5dfa7f75e25799d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 048/158] fix: a path handler that registers again replaces its
 registration

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 01778df..1ff52ac 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -228,7 +228,7 @@ class TaskWebBackend(Worker):
     @server.route(TaskConstants.FD_TMW_REGISTER_PATH)
     async def _(req: FetchRequest):
       body = PathRegistration.model_validate(req.body)
-      self.path_registrations.append(body)
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]
       await req.respond(None)
 
     await server.run()
-- 
2.43.0


From 4601cf7178486038ffe5916e67dc773c210a4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 049/158] fix: connections and servers are stored when they are
 changed

---
 streamtasks/system/connection_manager.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 2a309ba..cf02a9f 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -96,27 +96,30 @@ class UrlCreateModel(BaseModel):
 class ConnectionManager(TaskWebPathHandler):
   def __init__(self, register_endpoits: list[EndpointOrAddress] = [NetworkAddressNames.TASK_MANAGER_WEB]):
     super().__init__(f"/connections/{get_url_node_name()}/", PathRegistrationFrontend(path="std:connectionmanager", label=f"Connections ({NODE_NAME()})"), register_endpoits)
-    self.db = dbm.open(os.path.join(get_data_sub_dir("user-data"), "connections.db"), flag="c")
+    self.db_path = os.path.join(get_data_sub_dir("user-data"), "connections.db")
     self._connection_url_data: list[ConnectionUrlData] = []
     self._server_url_data: list[ServerUrlData] = []
     self._change_trigger_servers = AsyncTrigger()
     self._change_trigger_connections = AsyncTrigger()
 
-  def __del__(self): self.db.close()
+  # NOTE: changes are only guaranteed to be written once the database is closed
+  def open_db(self): return dbm.open(self.db_path, flag="c")
 
   def get_connection_urls(self) -> list[str]:
-    try: return URLListAdapter.validate_json(self.db.get("connection", b"[]"))
+    try:
+      with self.open_db() as db: return URLListAdapter.validate_json(db.get("connection", b"[]"))
     except ValidationError: return []
 
   def update_connection_urls(self):
-    self.db["connection"] = json.dumps([ data.url for data in self._connection_url_data ]).encode("utf-8")
+    with self.open_db() as db: db["connection"] = json.dumps([ data.url for data in self._connection_url_data ]).encode("utf-8")
 
   def get_server_urls(self) -> list[str]:
-    try: return URLListAdapter.validate_json(self.db.get("server", b"[]"))
+    try:
+      with self.open_db() as db: return URLListAdapter.validate_json(db.get("server", b"[]"))
     except ValidationError: return []
 
   def update_server_urls(self):
-    self.db["server"] = json.dumps([ data.url for data in self._server_url_data ]).encode("utf-8")
+    with self.open_db() as db: db["server"] = json.dumps([ data.url for data in self._server_url_data ]).encode("utf-8")
 
   async def run_inner(self):
     try:
-- 
2.43.0


From 706c7da6dcb0f727670bc548ee0cb9bdeb47b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 050/158] fix: the servers of the connection manager are
 stopped with it

---
 streamtasks/system/connection_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index cf02a9f..c547694 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -128,7 +128,7 @@ class ConnectionManager(TaskWebPathHandler):
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-      for data in itertools.chain(self._connection_url_data, self._connection_url_data): await data.stop()
+      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()
 
   async def run_web_server(self):
     app = ASGIServer()
-- 
2.43.0


From 3e2ffc40ebd667ad46648b963bb8deded859c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 051/158] fix: a connection or server that has failed can be
 deleted

---
 streamtasks/system/connection_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index c547694..d9c2278 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -4,6 +4,7 @@ import functools
 import hashlib
 import itertools
 import json
+import logging
 import os
 import re
 from typing import Generic, TypeVar
@@ -66,6 +67,7 @@ class UrlData(Generic[T]):
     self.task.cancel()
     try: await self.task
     except asyncio.CancelledError: pass
+    except Exception as e: logging.info("%s has failed: %s", self.sanitized_url, e)
     finally: self.task = None
 
   @abstractmethod
-- 
2.43.0


From 9495a988170861555a537301099407bd73aac2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 052/158] fix: connections with invalid urls are refused

---
 streamtasks/system/connection_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index d9c2278..b8dc4fd 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -11,7 +11,7 @@ from typing import Generic, TypeVar
 from pydantic import BaseModel, TypeAdapter, ValidationError
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler
-from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server
+from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server, extract_connection_data_from_url
 from streamtasks.env import NODE_NAME, get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.services.constants import NetworkAddressNames
@@ -220,6 +220,7 @@ class ConnectionManager(TaskWebPathHandler):
     await ASGIAppRunner(self.client, app).run()
 
   async def create_connection_url_data(self, url: str):
+    extract_connection_data_from_url(url) # the url must be valid
     w = AutoReconnector(connect_fn=functools.partial(connect, url=url))
     await self.switch.add_link(await w.create_link())
     return ConnectionUrlData(url=url, worker=w, change_trigger=self._change_trigger_connections)
-- 
2.43.0


From ec4e40f670aa29cf28a45ea88bf9a28dcc1f7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 053/158] fix: adding a connection or server again leaves
 nothing behind

---
 streamtasks/system/connection_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index b8dc4fd..0113edb 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -163,8 +163,8 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      if any(True for connection in self._connection_url_data if connection.url == req.url): return await ctx.respond_status(400)
       data = await self.create_connection_url_data(req.url)
-      if any(True for connection in self._connection_url_data if connection.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._connection_url_data.append(data)
       self.update_connection_urls()
@@ -189,8 +189,8 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      if any(True for server in self._server_url_data if server.url == req.url): return await ctx.respond_status(400)
       data = await self.create_server_url_data(req.url)
-      if any(True for server in self._server_url_data if server.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._server_url_data.append(data)
       self.update_server_urls()
-- 
2.43.0


From ac1d68d7ef46a64e4a1b82aec470362bb492271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 054/158] fix: IPv6 hosts are listed in brackets

---
 streamtasks/system/connection_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 0113edb..def6108 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -45,9 +45,11 @@ class UrlData(Generic[T]):
   def sanitized_url(self):
     purl = urllib.parse.urlparse(self.url)
     if len(purl.scheme) == 0: return self.url
+    hostname = purl.hostname or ""
+    if ":" in hostname: hostname = f"[{hostname}]" # IPv6
     return urllib.parse.urlunparse(urllib.parse.ParseResult(
       scheme=purl.scheme,
-      netloc=(purl.hostname or "") + (":" + str(purl.port) if purl.port else ""),
+      netloc=hostname + (":" + str(purl.port) if purl.port else ""),
       path=purl.path,
       params="",
       query="",
-- 
2.43.0


From 5968fd03fb24602694e7d579f80e8de5e9d5a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 055/158] fix: an application is told again that its client has
 disconnected

---
 streamtasks/asgi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 725c204..4249401 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -27,6 +27,7 @@ class ASGIConnectionConfig:
 
 class ASGIConstants:
   FD_DESCRIPTOR = "init"
+  DISCONNECT_EVENT_TYPES = { "http.disconnect", "websocket.disconnect" }
 
 
 class ASGIInitRequest(BaseModel):
@@ -161,19 +162,24 @@ class ASGIAppRunner:
     sender = ASGIEventSender(self._client, config.remote_endpoint)
 
     recv_queue = asyncio.Queue()
+    disconnect_event: dict | None = None
 
     async def send(event: dict):
       await sender.send(event)
       await asyncio.sleep(0)
 
     async def receive() -> dict:
+      nonlocal disconnect_event
+      if disconnect_event is not None: return disconnect_event # nothing else will ever be received
       while recv_queue.empty() and not stop_signal.is_set():
         data = await receiver.get()
         for event in data.events:
           event = MessagePackValueTransformer.deannotate_value(event)
           await recv_queue.put(event)
       await asyncio.sleep(0)
-      return await recv_queue.get()
+      event = await recv_queue.get()
+      if event.get("type", None) in ASGIConstants.DISCONNECT_EVENT_TYPES: disconnect_event = event
+      return event
 
     async def run():
       try:
-- 
2.43.0


From 6291b526977069a33b2b36364e2f787fe6edecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 056/158] fix: a client that goes away unexpectedly is reported
 to the application behind the network

---
 streamtasks/asgi.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 4249401..546af89 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -203,8 +203,10 @@ class ASGIProxyApp:
 
     port = self._client.get_free_port()
     receiver = ASGIEventReceiver(self._client, port)
-    await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost
+    async with receiver: # NOTE: must be enabled before sending init message, otherwise events will be lost
+      await self._run_connection(scope.get("type", None), ser_scope, port, receiver, receive, send)
 
+  async def _run_connection(self, scope_type: str | None, ser_scope: dict, port: int, receiver: ASGIEventReceiver, receive: Callable[[], Awaitable[dict]], send: Callable[[dict], Awaitable[None]]):
     init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
       address=self._client.address,
       port=port,
@@ -219,8 +221,7 @@ class ASGIProxyApp:
         event = await receive()
         await sender.send(event)
         await asyncio.sleep(0)
-        event_type = event.get("type", None)
-        if event_type == "http.disconnect" or event_type == "websocket.disconnect": closed_event.set()
+        if event.get("type", None) in ASGIConstants.DISCONNECT_EVENT_TYPES: closed_event.set()
 
     async def send_loop():
       while not closed_event.is_set():
@@ -229,12 +230,14 @@ class ASGIProxyApp:
         for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
         if data.closed: closed_event.set()
 
-    recv_task = asyncio.create_task(recv_loop())
-    send_task = asyncio.create_task(send_loop())
-    await closed_event.wait()
-    await receiver.stop_recv()
-    recv_task.cancel()
-    send_task.cancel()
+    tasks = [ asyncio.create_task(recv_loop()), asyncio.create_task(send_loop()) ]
+    try:
+      done, _ = await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+      for task in done: task.result()
+    finally:
+      for task in tasks: task.cancel()
+      if not closed_event.is_set() and f"{scope_type}.disconnect" in ASGIConstants.DISCONNECT_EVENT_TYPES:
+        await sender.send({ "type": f"{scope_type}.disconnect" }) # the client is gone, but the application does not know yet
 
 class HTTPServerOverASGI(Worker):
   def __init__(self, http_endpoint: tuple[str, int], asgi_endpoint: EndpointOrAddress, http_config: dict[str, Any] = {}):
-- 
2.43.0


From 70702cc3da459d55ff93840818fa99faceaf7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:04 +0000
Subject: [PATCH 057/158] fix: path patterns match exactly the paths that can
 be read as them

---
 streamtasks/asgiserver.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 31ce57d..868dd86 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -395,6 +395,11 @@ class PathPattern:
     for part in self.parts:
       if "}" in part: raise ValueError("Invalid pattern. Found closing brace without an opening brace.")
 
+    path_regex = re.escape(self.parts[0])
+    for (_, param_allow_slash), part in zip(self.params, self.parts[1:]):
+      path_regex += ("(.*?)" if param_allow_slash else "([^/]*?)") + re.escape(part)
+    self._path_regex = re.compile(path_regex, re.DOTALL)
+
   def construct(self, params: dict[str, str], default_value: str | None = None) -> str:
     param_parts = []
     for param_name, param_allow_slash in self.params:
@@ -410,29 +415,10 @@ class PathPattern:
     return "".join(result_parts)
 
   def match(self, path: str) -> dict[str,str] | None:
-    # path = path.rstrip("/")
-    if len(self.parts) == 1:
-      return {} if path == self.parts[0] else None
-
+    match = self._path_regex.fullmatch(path)
+    if match is None: return None
     params: dict[str, str] = {}
-    current_index = 0
-    for idx in range(0, len(self.parts) - 1):
-      part1 = self.parts[idx]
-      part2 = self.parts[idx + 1]
-      param_name, param_allow_slash = self.params[idx]
-
-      part1_len = len(part1)
-      if path[current_index:current_index + part1_len] != part1: return None
-
-      current_index += part1_len
-      if part2 == "" and idx == len(self.parts) - 2:
-        param_val = path[current_index:]
-      else:
-        part2_start = path.find(part2, current_index)
-        if part2_start == -1: return None
-        param_val = path[current_index:part2_start]
-      current_index += len(param_val)
-      if "/" in param_val and not param_allow_slash: return None
+    for (param_name, _), param_val in zip(self.params, match.groups()):
       if param_name is not None: params[param_name] = param_val
     return params
 
-- 
2.43.0


From 7457fe4b022f02d619992a9addae5804de590eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:04 +0000
Subject: [PATCH 058/158] fix: a pattern ending in a slash matches the path it
 says

---
 streamtasks/asgiserver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 868dd86..c03eb9e 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -366,7 +366,6 @@ class ASGIServer(ASGIHandlerStack):
 # TODO: matching needs improvements
 class PathPattern:
   def __init__(self, pattern: str) -> None:
-    pattern = pattern.rstrip("/")
     param_ranges: list[tuple[int, int]] = []
     param_search_start = 0
     while (param_start := pattern.find("{", param_search_start)) != -1:
-- 
2.43.0


From 523a52336724229b2dcca445f198b72cba622609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 059/158] fix: files of unknown type are served

---
 streamtasks/asgiserver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index c03eb9e..092c59e 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -263,8 +263,7 @@ class HTTPContext(TransportContext):
   async def respond_file(self, path: str | pathlib.Path, status: int = 200, mime_type: str | None = None, buffer_size: int = -1):
     buffer_size = int(buffer_size)
     st = os.stat(path)
-    mime_type = mime_type or mimetypes.guess_type(path)[0]
-    if mime_type is None: raise ValueError("Unknown mime type!")
+    mime_type = mime_type or mimetypes.guess_type(path)[0] or "application/octet-stream"
 
     content_type = mime_type
     writer = await self.respond(status, headers=[
-- 
2.43.0


From add3a657a5b081d62083657e5f302f8b07d851e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 060/158] fix: index files must be files inside the folder

---
 streamtasks/asgiserver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 092c59e..bdf51c6 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -521,12 +521,14 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
   directory_path = pathlib.Path(path).resolve(strict=True)
   if not directory_path.is_dir(): return static_file_handler(path, response_buffer_size=response_buffer_size)
 
+  def is_servable(path: pathlib.Path): return directory_path in path.parents and path.is_file()
+
   @http_context_handler
   async def handler(ctx: HTTPContext):
     request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
     if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
-    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
-    if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
+    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file).resolve() for idx_file in index_files) if is_servable(p)), None)
+    if request_path is None or not is_servable(request_path): return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
   return handler
-- 
2.43.0


From 0879f608cc737239fe21aa3736cabb69fdc19258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 061/158] fix: paths that no file can have are not found

---
 streamtasks/asgiserver.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index bdf51c6..2345ed7 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -523,12 +523,18 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
 
   def is_servable(path: pathlib.Path): return directory_path in path.parents and path.is_file()
 
+  def find_file(path: str) -> pathlib.Path | None:
+    try:
+      request_path = directory_path.joinpath(path.lstrip("/\\")).resolve()
+      if directory_path not in request_path.parents and directory_path != request_path: return None
+      if request_path.is_dir(): return next((p for p in (request_path.joinpath(idx_file).resolve() for idx_file in index_files) if is_servable(p)), None)
+      return request_path if is_servable(request_path) else None
+    except (OSError, ValueError, RuntimeError): return None # no file can have this path
+
   @http_context_handler
   async def handler(ctx: HTTPContext):
-    request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
-    if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
-    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file).resolve() for idx_file in index_files) if is_servable(p)), None)
-    if request_path is None or not is_servable(request_path): return await ctx.respond_status(404)
+    request_path = find_file(ctx.path)
+    if request_path is None: return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
   return handler
-- 
2.43.0


From eb016d50930a2821d640a3a0a8f22f11db549b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 062/158] fix: response headers may be any iterable

---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 2345ed7..467705b 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -300,7 +300,7 @@ class HTTPContext(TransportContext):
 
   async def _wsend(self, event: dict):
     event_type = event.get("type", None)
-    if event_type == "http.response.start": event = { **event, "headers": event.get("headers", []) + self._add_response_headers }
+    if event_type == "http.response.start": event = { **event, "headers": [*event.get("headers", []), *self._add_response_headers] }
     if event_type == "http.response.body": self._more_response_body = event.get("more_body", False)
     return await super()._wsend(event)
   async def _wreceive(self) -> dict:
-- 
2.43.0


From 93a057ce406dfe377a8ca93c6c051d37c490d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 063/158] fix: parameters of content types may be quoted

---
 streamtasks/asgiserver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 467705b..62a940a 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -1,5 +1,6 @@
 import base64
 import codecs
+from email.message import Message
 import functools
 from io import BytesIO
 import json
@@ -106,10 +107,10 @@ class TransportContext(ContextBase):
     if ct is None or len(ct) == 0: raise ValueError("No content type specified on request!")
     if len(ct) > 1: raise ValueError("More than one content-type was specified!")
     ct = ct[0]
-    parts = [ p.strip() for p in ct.split(";") ]
-    mime_type = parts[0].lower()
-    params = { k.lower(): v for k, v in (tuple(p.split("=") for p in parts[1:] if p.count("=") == 1)) }
-    return mime_type, params
+    message = Message()
+    message["content-type"] = ct
+    (mime_type, _), *params = message.get_params()
+    return mime_type.lower(), { k.lower(): v for k, v in params }
 
 
 class WebsocketContext(TransportContext):
-- 
2.43.0


From 84b589ce71deaa5c3c6ca4941c6d52abed3e006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 064/158] fix: empty binary messages are received

---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 62a940a..f865b1a 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -163,7 +163,7 @@ class WebsocketContext(TransportContext):
     event = await self._wreceive()
     if event["type"] == "websocket.connect": return "connect", None
     if event["type"] == "websocket.disconnect": return "disconnect", None
-    if event["type"] == "websocket.receive": return "message", event.get("bytes", None) or event.get("text", None)
+    if event["type"] == "websocket.receive": return "message", event.get("text", None) if event.get("bytes", None) is None else event["bytes"]
 
   async def send_message(self, data: str | ByteString):
     event: dict[str, Any] = { "type": "websocket.send", "bytes": None, "text": None }
-- 
2.43.0


From 0b92e718578813c238c8344c92cf10e0d0460d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 065/158] fix: data uris keep their bytes and character set

---
 streamtasks/asgiserver.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f865b1a..e90d108 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -11,7 +11,7 @@ import re
 from typing import Any, Awaitable, Callable, Iterable, Literal, NotRequired
 from typing_extensions import TypedDict
 from collections.abc import ByteString
-from urllib.parse import unquote_plus
+from urllib.parse import unquote_to_bytes
 
 
 class ASGIScopeBase(TypedDict):
@@ -547,12 +547,9 @@ def decode_data_uri(data_uri: str, default_mime_types: tuple[str | None, str | N
   is_base64 = 'base64' in metadata_parts
   mime_type = metadata_parts[0] or ((default_mime_types[1] or "application/octet-stream") if is_base64 else (default_mime_types[0] or "text/plain"))
 
-  if is_base64:
-    charset = next((p for p in metadata_parts if p.startswith("charset=")), None)
-    if charset is not None: charset = charset[8:].strip()
-    byte_data = base64.b64decode(encoded_data)
-  else:
-    charset = default_charset
-    byte_data = unquote_plus(encoded_data).encode(default_charset)
+  charset = next((p[8:].strip() for p in metadata_parts if p.startswith("charset=")), None)
+  byte_data = unquote_to_bytes(encoded_data)
+  if is_base64: byte_data = base64.b64decode(byte_data)
+  elif charset is None: charset = default_charset
 
   return byte_data, mime_type, charset
-- 
2.43.0


From d42eda20bdffbc0df088fcf3389af91772caa40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 066/158] fix: a failure after the response was started
 produces no second response

---
 streamtasks/asgi.py       | 10 +++++++++-
 streamtasks/asgiserver.py | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 546af89..ead99a8 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -267,8 +267,16 @@ async def asgi_app_not_found(_scope, _receive, send):
 
 @http_context_handler
 async def asgi_default_http_error_handler(ctx: HTTPContext):
+  async def next_handler():
+    try: await ctx.next()
+    except asyncio.CancelledError: raise
+    except BaseException as e:
+      if not ctx.response_started: raise
+      logging.debug("ASGI request error (response already started): %r", e)
+
   try:
-    await ctx.next()
+    await next_handler()
+  except asyncio.CancelledError: raise
   except (ValidationError, ValueError) as e:
     logging.debug("ASGI request error (bad request): ", e)
     await ctx.respond_status(400)
diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index e90d108..78f6deb 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -230,6 +230,7 @@ class HTTPContext(TransportContext):
     self._connected: bool = True
     self._more_request_body: bool = True
     self._more_response_body: bool = True
+    self._response_started: bool = False
     self._add_response_headers: list[tuple[ByteString, ByteString]] = []
     self._scope: HTTPScope
 
@@ -240,6 +241,8 @@ class HTTPContext(TransportContext):
   @property
   def more_response_body(self): return self._more_response_body
   @property
+  def response_started(self): return self._response_started
+  @property
   def method(self): return self._scope["method"]
   @functools.cached_property
   def body(self): return HTTPBodyReader(self._wreceive)
@@ -301,7 +304,9 @@ class HTTPContext(TransportContext):
 
   async def _wsend(self, event: dict):
     event_type = event.get("type", None)
-    if event_type == "http.response.start": event = { **event, "headers": [*event.get("headers", []), *self._add_response_headers] }
+    if event_type == "http.response.start":
+      self._response_started = True
+      event = { **event, "headers": [*event.get("headers", []), *self._add_response_headers] }
     if event_type == "http.response.body": self._more_response_body = event.get("more_body", False)
     return await super()._wsend(event)
   async def _wreceive(self) -> dict:
@@ -354,12 +359,20 @@ class ASGIHandlerStack:
 
 class ASGIServer(ASGIHandlerStack):
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
+    responded = False
+    async def tracked_send(event: dict):
+      nonlocal responded
+      if event.get("type", None) in { "http.response.start", "websocket.close" }: responded = True
+      await send(event)
+
     try:
-      await super().__call__(scope, receive, send)
+      await super().__call__(scope, receive, tracked_send)
     except NoHandlerError:
+      if responded: raise
       if scope.get("type", None) == "http": await HTTPContext(scope, receive, send).respond_status(404)
       elif scope.get("type", None) == "websocket": await WebsocketContext(scope, receive, send).close(reason="No handler found.")
     except BaseException:
+      if responded: raise # there can only be one response
       if scope.get("type", None) == "http": await HTTPContext(scope, receive, send).respond_status(500)
       elif scope.get("type", None) == "websocket": await WebsocketContext(scope, receive, send).close(code=1011)
 
-- 
2.43.0


From 1b212e1d8de85c871457e817e53ba8e4185f0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 067/158] fix: remote errors of any kind are answered

---
 streamtasks/asgi.py         | 4 ++--
 streamtasks/client/fetch.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index ead99a8..0c01be3 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -286,8 +286,8 @@ async def asgi_default_http_error_handler(ctx: HTTPContext):
   except FetchError as e:
     logging.debug("ASGI request error (fetch error): ", e)
     if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)
-    if e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)
-    if e.status_code == FetchErrorStatusCode.GENERAL: await ctx.respond_status(500)
+    elif e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)
+    else: await ctx.respond_status(500)
   except BaseException as e:
     logging.debug("ASGI request error (unknown): ", e)
     await ctx.respond_status(500)
diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 3c1552a..764e59b 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -52,7 +52,10 @@ class FetchError(BaseException):
     self.body = body
 
   @property
-  def status_code(self): return FetchErrorStatusCode(self.body[0]) if self.body[0] in FetchErrorStatusCode._value2member_map_ else None
+  def status_code(self):
+    if not isinstance(self.body, (tuple, list)) or len(self.body) == 0: return None
+    try: return FetchErrorStatusCode(self.body[0])
+    except ValueError: return None
 
   def __str__(self) -> str:
     if isinstance(self.body, tuple) and len(self.body) == 2 and self.body[0] in FetchErrorStatusCode._value2member_map_:
-- 
2.43.0


From 5f44743f114de199622ec404d4234f9e7d7718fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 068/158] fix: requests nothing handles are not found, not
 failures

---
 streamtasks/asgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 0c01be3..a6842b8 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -1,4 +1,4 @@
-from streamtasks.asgiserver import HTTPContext, http_context_handler
+from streamtasks.asgiserver import HTTPContext, NoHandlerError, http_context_handler
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.utils import AsyncTaskManager
@@ -276,7 +276,7 @@ async def asgi_default_http_error_handler(ctx: HTTPContext):
 
   try:
     await next_handler()
-  except asyncio.CancelledError: raise
+  except (asyncio.CancelledError, NoHandlerError): raise
   except (ValidationError, ValueError) as e:
     logging.debug("ASGI request error (bad request): ", e)
     await ctx.respond_status(400)
-- 
2.43.0


From 1499ba1bd320c220f0df04e1232720428caa6463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 069/158] fix: formulas are read with one precedence, as
 documented

---
 streamtasks/system/tasks/calculator.py | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..eed2d41 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -19,30 +19,30 @@ start: expr
 
 ?expr: inline_if
 
-?inline_if: comparsion
-    | expr "?" expr ":" expr -> inline_if
-
-?comparsion: binary_op
-    | expr ">" expr -> gt
-    | expr "<" expr -> lt
-    | expr ">=" expr -> ge
-    | expr "<=" expr -> le
-    | expr "==" expr -> eq
-    | expr "!=" expr -> ne
-
-?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
-    | binary_op "^" expr -> xor
+?inline_if: binary_op
+    | binary_op "?" expr ":" expr -> inline_if
+
+?binary_op: comparsion
+    | binary_op "&" comparsion -> and
+    | binary_op "|" comparsion -> or
+    | binary_op "^" comparsion -> xor
+
+?comparsion: sum
+    | comparsion ">" sum -> gt
+    | comparsion "<" sum -> lt
+    | comparsion ">=" sum -> ge
+    | comparsion "<=" sum -> le
+    | comparsion "==" sum -> eq
+    | comparsion "!=" sum -> ne
 
 ?sum: product
     | sum "+" product -> add
     | sum "-" product -> sub
 
 ?product: exp
-    | product "*" atom -> mul
-    | product "/" atom -> div
-    | product "%" atom -> mod
+    | product "*" exp -> mul
+    | product "/" exp -> div
+    | product "%" exp -> mod
 
 ?exp: atom
     | exp "**" atom -> pow
-- 
2.43.0


From 18b75f0ae532f91a1ad980ab5b25acab94098284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 070/158] fix: the logical operators of formulas work

---
 streamtasks/system/tasks/calculator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index eed2d41..3525691 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -23,8 +23,8 @@ start: expr
     | binary_op "?" expr ":" expr -> inline_if
 
 ?binary_op: comparsion
-    | binary_op "&" comparsion -> and
-    | binary_op "|" comparsion -> or
+    | binary_op "&" comparsion -> and_
+    | binary_op "|" comparsion -> or_
     | binary_op "^" comparsion -> xor
 
 ?comparsion: sum
@@ -51,7 +51,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
@@ -124,7 +124,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
-- 
2.43.0


From 56871e6f1b85cfeaf17eec2f56121c1c8827d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 071/158] fix: only the selected branch of a condition is
 evaluated

---
 streamtasks/system/tasks/calculator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 3525691..3ee705b 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -11,7 +11,7 @@ from streamtasks.system.task import Task, TaskHost
 from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
-from lark import Lark, ParseTree, Transformer
+from lark import Lark, ParseTree, Transformer, Tree
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -108,6 +108,13 @@ class CalculatorEvalTransformer(Transformer):
     super().__init__()
     self.context = context
 
+  def transform(self, tree):
+    if not isinstance(tree, Tree): return tree
+    if tree.data == "inline_if": # only the selected expression is evaluated
+      condition, if_true, if_false = tree.children
+      return self.transform(if_true if self.transform(condition) > 0.5 else if_false)
+    return getattr(self, tree.data)([ self.transform(child) for child in tree.children ])
+
   def start(self, args): return args[0]
   def number(self, args): return float(args[0])
   def variable(self, args): return self.context[args[0]]
@@ -131,7 +138,6 @@ class CalculatorEvalTransformer(Transformer):
   def le(self, args): return 1.0 if args[0] <= args[1] else 0.0
   def eq(self, args): return 1.0 if args[0] == args[1] else 0.0
   def ne(self, args): return 1.0 if args[0] != args[1] else 0.0
-  def inline_if(self, args): return args[1] if args[0] > 0.5 else args[2]
 
 
 class CalculatorNameExtractor(Transformer):
-- 
2.43.0


From 15c65a08c4a4818557c33e19d202d42b5e1db5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 072/158] fix: only documented functions can be called in
 formulas

---
 streamtasks/system/tasks/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 3ee705b..7f0827a 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -183,7 +183,7 @@ class CalculatorConfigBase(BaseModel):
     if not extractor.var_names.issubset(all_var_names):
       raise ValueError(f"Invalid variable names: {extractor.var_names - all_var_names}")
 
-    available_func_names = CalculatorEvalContext.__dict__.keys()
+    available_func_names = { name for name, func in CalculatorEvalContext.__dict__.items() if not name.startswith("_") and callable(func) }
     if not extractor.func_names.issubset(available_func_names):
       raise ValueError(f"Invalid function names: {extractor.func_names - available_func_names}")
 
-- 
2.43.0


From 2ad70050910c83fda69fbc43f2796128d3c7e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 073/158] fix: rounding functions give numbers like all others

---
 streamtasks/system/tasks/calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 7f0827a..f16c9fd 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -93,9 +93,9 @@ class CalculatorEvalContext:
   def log10(self, x): return math.log10(x)
   def exp(self, x): return math.exp(x)
   def sqrt(self, x): return math.sqrt(x)
-  def floor(self, x): return math.floor(x)
-  def ceil(self, x): return math.ceil(x)
-  def round(self, x): return round(x)
+  def floor(self, x): return float(math.floor(x))
+  def ceil(self, x): return float(math.ceil(x))
+  def round(self, x): return float(round(x))
   def abs(self, x): return abs(x)
   def min(self, *args): return min(*args)
   def max(self, *args): return max(*args)
-- 
2.43.0


From 3ae6200bc237af40cfe8f2f350ffffa725b378cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 074/158] fix: min and max accept a single value

---
 streamtasks/system/tasks/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f16c9fd..782e4ca 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -97,8 +97,8 @@ class CalculatorEvalContext:
   def ceil(self, x): return float(math.ceil(x))
   def round(self, x): return float(round(x))
   def abs(self, x): return abs(x)
-  def min(self, *args): return min(*args)
-  def max(self, *args): return max(*args)
+  def min(self, *args): return min(args)
+  def max(self, *args): return max(args)
 
 # takes an input map and transforms bools to floats. Any float > 0.5 is considered True, otherwise False
 
-- 
2.43.0


From 628c70d7f3e5bbcc0fe2d7bd44e470db038ec2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 075/158] fix: a calculator survives inputs its formula has no
 value for

---
 streamtasks/system/tasks/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 782e4ca..3b794b3 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -8,7 +8,7 @@ from streamtasks.net.serialization import RawData
 from streamtasks.message.types import NumberMessage
 from streamtasks.net.messages import TopicControlData
 from streamtasks.system.task import Task, TaskHost
-from pydantic import BaseModel, ValidationError, model_validator
+from pydantic import BaseModel, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer, Tree
@@ -239,7 +239,7 @@ class CalculatorTask(Task):
           message = NumberMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValueError, ArithmeticError, TypeError): pass # invalid message or no value for these inputs
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
-- 
2.43.0


From 2661d7ce3eff46fe76d6e35a6272e39e1c7b14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 076/158] fix: functions in formulas take the arguments they
 are documented with

---
 streamtasks/system/tasks/calculator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 3b794b3..a41b44d 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -1,6 +1,7 @@
 import asyncio
 import contextlib
 import functools
+import inspect
 from streamtasks.client import Client
 from streamtasks.client.topic import InTopic, SequentialInTopicSynchronizer
 from streamtasks.system.configurators import EditorFields, multitrackio_configurator, static_configurator
@@ -97,8 +98,8 @@ class CalculatorEvalContext:
   def ceil(self, x): return float(math.ceil(x))
   def round(self, x): return float(round(x))
   def abs(self, x): return abs(x)
-  def min(self, *args): return min(args)
-  def max(self, *args): return max(args)
+  def min(self, x, *args): return min((x, *args))
+  def max(self, x, *args): return max((x, *args))
 
 # takes an input map and transforms bools to floats. Any float > 0.5 is considered True, otherwise False
 
@@ -145,10 +146,16 @@ class CalculatorNameExtractor(Transformer):
     super().__init__()
     self.var_names = set()
     self.func_names = set()
+    self.func_calls: set[tuple[str, int]] = set()
 
   def start(self, args): return self.var_names
-  def variable(self, args): self.var_names.add(args[0])
-  def func(self, args): self.func_names.add(args[0])
+  def variable(self, args):
+    self.var_names.add(args[0])
+    return args[0]
+  def func(self, args):
+    self.func_names.add(args[0])
+    self.func_calls.add((args[0], len([ arg for arg in args[1:] if arg is not None ])))
+    return args[0]
 
 class CalculatorVariableConfigBase(BaseModel):
   name: str = "a"
@@ -187,6 +194,10 @@ class CalculatorConfigBase(BaseModel):
     if not extractor.func_names.issubset(available_func_names):
       raise ValueError(f"Invalid function names: {extractor.func_names - available_func_names}")
 
+    for func_name, arg_count in extractor.func_calls:
+      try: inspect.signature(getattr(CalculatorEvalContext, func_name)).bind(None, *range(arg_count))
+      except TypeError: raise ValueError(f"Invalid number of arguments for function: {func_name}")
+
   @staticmethod
   def variable_name_is_valid(name: str) -> bool:
     if re.match(r"^[a-zA-Z_][a-zA-Z0-9_]*$", name) is None: return False
-- 
2.43.0


From 8435221db95d01d57a49f418278f662848b82aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 077/158] fix: messages with infinite timestamps have no
 timestamp

---
 streamtasks/message/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 72b0276..b2e999c 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -1,3 +1,4 @@
+import math
 from streamtasks.net.serialization import RawData
 
 def get_timestamp_from_message(data: RawData) -> int:
@@ -7,7 +8,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
   if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
-- 
2.43.0


From cae7ea054c6cecc138aaee584fed7b28ebea3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 078/158] fix: a switch ignores controls that are not a number

---
 streamtasks/system/tasks/switch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index db0cfc3..c5f2f1f 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -1,3 +1,4 @@
+import math
 import asyncio
 from contextlib import AsyncExitStack
 from typing import Any
@@ -57,7 +58,7 @@ class SwitchTask(Task):
           if data.paused: self.control_values.pop(idx, None)
         else:
           message = NumberMessage.model_validate(data.data)
-          await self.set_value(idx, message.value)
+          if not math.isnan(message.value): await self.set_value(idx, message.value)
       except ValidationError: pass
 
   async def set_value(self, idx: int, value: float | int):
-- 
2.43.0


From ab135326e73309b18f38580aa5bd2464a664f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 079/158] fix: a switch takes over the pause state when a
 paused control changes the selection

---
 streamtasks/system/tasks/switch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index c5f2f1f..289c670 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -55,7 +55,9 @@ class SwitchTask(Task):
       data = await topic.recv_data_control()
       try:
         if isinstance(data, TopicControlData):
-          if data.paused: self.control_values.pop(idx, None)
+          if data.paused:
+            self.control_values.pop(idx, None)
+            await self.update_output_paused()
         else:
           message = NumberMessage.model_validate(data.data)
           if not math.isnan(message.value): await self.set_value(idx, message.value)
@@ -63,6 +65,9 @@ class SwitchTask(Task):
 
   async def set_value(self, idx: int, value: float | int):
     self.control_values[idx] = value
+    await self.update_output_paused()
+
+  async def update_output_paused(self):
     selected_index = self._get_selected_index()
     if selected_index != -1:
       await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)
-- 
2.43.0


From 9f41133d974c82db98da4f9edeb8daebb7524af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 080/158] fix: a media switch continues only with a key frame
 after it dropped packets

---
 streamtasks/system/tasks/media/mediaswitch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/tasks/media/mediaswitch.py b/streamtasks/system/tasks/media/mediaswitch.py
index 1e062a7..79e570f 100644
--- a/streamtasks/system/tasks/media/mediaswitch.py
+++ b/streamtasks/system/tasks/media/mediaswitch.py
@@ -25,6 +25,8 @@ class MediaSwitchTask(SwitchTask):
             except ValidationError: pass
           if idx == self._active_index:
             await self.out_topic.send(data)
+      elif idx == self._active_index and not isinstance(data, TopicControlData):
+        self._active_index = -1 # NOTE: packets are missing, continue with the next keyframe
 
 class MediaSwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From 137fb7442ca07e4ec94f91cc36335ee56dc288fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 081/158] fix: plain text is found in texts of several lines

---
 streamtasks/system/tasks/stringmatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/stringmatcher.py b/streamtasks/system/tasks/stringmatcher.py
index b7b06a6..3fe519f 100644
--- a/streamtasks/system/tasks/stringmatcher.py
+++ b/streamtasks/system/tasks/stringmatcher.py
@@ -25,7 +25,7 @@ class StringMatcherTask(Task):
     self.in_topic = self.client.in_topic(config.in_topic)
 
     pattern = config.pattern
-    if not config.is_regex: pattern = "^.*(" + re.escape(pattern) + ").*$"
+    if not config.is_regex: pattern = "(?s:.*)(" + re.escape(pattern) + ")"
 
     flags = reduce(lambda pv, cv: pv | cv, [ re.RegexFlag._member_map_[f].value for f in config.flags.upper() if f in re.RegexFlag._member_map_ ], 0)
     self.regex = re.compile(pattern, flags)
-- 
2.43.0


From 341a15f09d83cab829b4c3822846db664456bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 082/158] fix: times without a date do not end the conversion

---
 streamtasks/system/tasks/timetotext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timetotext.py b/streamtasks/system/tasks/timetotext.py
index 9ff222b..6c92c40 100644
--- a/streamtasks/system/tasks/timetotext.py
+++ b/streamtasks/system/tasks/timetotext.py
@@ -34,7 +34,7 @@ class TimeToTextTask(Task):
             timestamp = get_timestamp_from_message(data)
             value = datetime.fromtimestamp(timestamp / 1000).strftime(self.config.date_format)
             await self.out_topic.send(RawData(TextMessage(timestamp=timestamp, value=value).model_dump()))
-        except ValueError: pass
+        except (ValueError, OverflowError, OSError): pass # no timestamp or one without a date
 
 class TimeToTextTaskHost(TaskHost):
   @property
-- 
2.43.0


From 1076406e4d62aba20c3ed10b71731c8acd790920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 083/158] fix: a time buffer pauses its output after the last
 held message

---
 streamtasks/system/tasks/timebuffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timebuffer.py b/streamtasks/system/tasks/timebuffer.py
index 92e6206..582d91d 100644
--- a/streamtasks/system/tasks/timebuffer.py
+++ b/streamtasks/system/tasks/timebuffer.py
@@ -64,8 +64,10 @@ class TimeBufferTask(Task):
 
   async def run_sender_clock(self):
     while True:
-      if len(self.message_queue) == 0: await self.update_trigger.wait()
       await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)
+      if len(self.message_queue) == 0:
+        await self.update_trigger.wait()
+        continue
 
       if len(self.message_queue) > 0:
         next_message = self.message_queue[0]
-- 
2.43.0


From f419161de473868671e0b7aa549aeff4360a619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 084/158] fix: messages that are not mappings do not end the
 timestamp updater

---
 streamtasks/system/tasks/timestampupdater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timestampupdater.py b/streamtasks/system/tasks/timestampupdater.py
index 922b566..288c5e8 100644
--- a/streamtasks/system/tasks/timestampupdater.py
+++ b/streamtasks/system/tasks/timestampupdater.py
@@ -37,7 +37,7 @@ class TimestampUpdaterTask(Task):
             data = data.shallow_copy()
             set_timestamp_on_message(data, ref_time + self.config.time_offset)
             await self.out_topic.send(data)
-          except (ValueError, KeyError):
+          except (ValueError, KeyError, TypeError):
             if not self.config.fail_closed: await self.out_topic.send(data)
 
 class TimestampUpdaterTaskHost(TaskHost):
-- 
2.43.0


From 17e060965acb43d07b6faea1bbf8afb3f6387637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 085/158] fix: replay buffers play messages of any kind

---
 streamtasks/system/tasks/replaybuffer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index dc43f7a..91a320d 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -63,7 +63,6 @@ class ReplayBufferTask(Task):
     while True:
       time_offset: int | None = None
       for data in self.buffer:
-        data = data.shallow_copy()
         try:
           ts = get_timestamp_from_message(data)
           if time_offset is None: time_offset = self.sync.time - ts
-- 
2.43.0


From 5109ae46e10c39e22a45e230d1863b4bda10ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 086/158] fix: a looping replay buffer takes a breath after
 each pass

---
 streamtasks/system/tasks/replaybuffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index 91a320d..abb2e0a 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -72,6 +72,7 @@ class ReplayBufferTask(Task):
         except ValueError: pass
         await self.out_topic.send(data)
       if not self.config.loop: break
+      await asyncio.sleep(0.001) # NOTE: playing the buffer may take no time
     await self.out_topic.set_paused(True)
 
   async def update_playing_state(self):
-- 
2.43.0


From e94a66996cda46e88d29e047d7c2c570de1fb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 087/158] fix: web sockets of widgets tell every last value

---
 streamtasks/system/tasks/ui/controlbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 30172f6..0f47c70 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -89,8 +89,10 @@ class UIBaseTask(Task, Generic[C, V]):
       try:
         await ctx.accept()
         receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
+        value_changed = self.wait_value_changed()
         while ctx.connected:
-          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
+          await wait_with_dependencies(value_changed, [receive_disconnect_task])
+          value_changed = self.wait_value_changed() # NOTE: the value may change while it is being sent
           await ctx.send_message(self._value.model_dump_json())
       finally:
         receive_disconnect_task.cancel()
-- 
2.43.0


From 31dad31b4bef5540ea629aca755a0fe0f46f96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 088/158] fix: controls send the value they have last been set
 to

---
 streamtasks/system/tasks/ui/controlbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 0f47c70..79e752f 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -114,8 +114,9 @@ class UIControlBaseTask(UIBaseTask[C2, V]):
 
   async def run_other(self) -> AsyncContextManager:
     while True:
+      value_changed = self.wait_value_changed() # NOTE: the value may change while it is being sent
       await self.send_value(self._value)
       try:
-        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)
-        else: await self.wait_value_changed()
+        if self.config.repeat_interval > 0: await asyncio.wait_for(value_changed, self.config.repeat_interval)
+        else: await value_changed
       except asyncio.TimeoutError: pass
-- 
2.43.0


From b7eeef024d0f09632f893ad638e3b711f1f85c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 089/158] fix: a text display of length 0 shows no text

---
 streamtasks/system/tasks/ui/textdisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/textdisplay.py b/streamtasks/system/tasks/ui/textdisplay.py
index a39065f..6d5ae2f 100644
--- a/streamtasks/system/tasks/ui/textdisplay.py
+++ b/streamtasks/system/tasks/ui/textdisplay.py
@@ -37,7 +37,7 @@ class TextDisplayTask(UIBaseTask[TextDisplayConfig, TextDisplayValue]):
         message = TextMessage.model_validate(data.data)
         if self.config.append: new_text = self.value.value + self.config.seperator + message.value
         else: new_text = message.value
-        if self.config.max_length != -1: new_text = new_text[-self.config.max_length:]
+        if self.config.max_length != -1: new_text = new_text[max(0, len(new_text) - self.config.max_length):]
         self.value = TextDisplayValue(value=new_text)
       except ValidationError: pass
 
-- 
2.43.0


From 43f35039f1639ad4350b3f4dcbef9358f01d674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 090/158] fix: the audio frequency display pads the last bin
 only

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index a941a01..5da5379 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -45,7 +45,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
         for chunk, _ in chunker.next(new_samples, 0):
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
-          freq_bins = np.pad(freqs, (expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
+          freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           freq_bins = freq_bins / freq_bins.max()
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except ValidationError: pass
-- 
2.43.0


From 2a5e79973dfbd1b12067092fb5ac18f6c7bcf2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 091/158] fix: the audio frequency display shows silence

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index 5da5379..a037522 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -46,7 +46,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
           freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
-          freq_bins = freq_bins / freq_bins.max()
+          freq_bins = freq_bins / (freq_bins.max() or 1)
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except ValidationError: pass
 
-- 
2.43.0


From 0bc96ac5c04500cb04417946aec780552890fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 092/158] fix: the audio frequency display ignores data that
 are no samples

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index a037522..419d44b 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -2,7 +2,7 @@ from contextlib import AsyncExitStack
 import math
 from typing import Any
 import numpy as np
-from pydantic import BaseModel, ValidationError
+from pydantic import BaseModel
 from streamtasks.media.audio import audio_buffer_to_ndarray
 from streamtasks.media.util import AudioChunker
 from streamtasks.system.configurators import EditorFields, IOTypes, static_configurator
@@ -48,7 +48,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           freq_bins = freq_bins / (freq_bins.max() or 1)
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
-      except ValidationError: pass
+      except ValueError: pass # NOTE: includes ValidationError
 
 class AudioFrequencyDisplayTaskHost(TaskHost):
   @property
-- 
2.43.0


From cf34021393222eb14dea3bf88d5c4f1a60fff187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 093/158] fix: the web viewer escapes its address

---
 streamtasks/system/tasks/ui/webviewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/webviewer.py b/streamtasks/system/tasks/ui/webviewer.py
index 9e28f00..fc15712 100644
--- a/streamtasks/system/tasks/ui/webviewer.py
+++ b/streamtasks/system/tasks/ui/webviewer.py
@@ -1,3 +1,4 @@
+import html
 from typing import Any
 from pydantic import BaseModel
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
@@ -34,7 +35,7 @@ def make_html(url: str):
     </style>
   </head>
   <body>
-    <iframe src="{url}" allowfullscreen></iframe>
+    <iframe src="{html.escape(url)}" allowfullscreen></iframe>
   </body>
   </html>
   """
-- 
2.43.0


From 01d650a1db72b31bb68aead0e509512c18a714f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 094/158] fix: values of widgets are always sent as valid JSON

---
 streamtasks/system/tasks/ui/controlbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 79e752f..358067b 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -71,7 +71,7 @@ class UIBaseTask(Task, Generic[C, V]):
 
     @router.get("/value")
     @http_context_handler
-    async def _(ctx: HTTPContext): await ctx.respond_json(self._value.model_dump())
+    async def _(ctx: HTTPContext): await ctx.respond_json_string(self._value.model_dump_json())
 
     @router.get("/config")
     @http_context_handler
-- 
2.43.0


From fb004cdb733a24b575f88e1419e388ff53faebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 095/158] fix: time every audio chunk by its first sample

---
 streamtasks/media/util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 75732a7..859ba0c 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -139,13 +139,13 @@ class AudioChunker:
   def buffer_size(self): return 0 if self.buffer is None else self.buffer.size
 
   def next(self, buf: np.ndarray, timestamp: int):
-    current_timestamp = timestamp - self.buffer_size * 1000 // self.sample_rate
+    sample_offset = -self.buffer_size # the position of the chunk relative to the new buffer
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
     while self.buffer.size > self.chunk_size:
-      yield (self.buffer[:self.chunk_size], current_timestamp)
+      yield (self.buffer[:self.chunk_size], timestamp + sample_offset * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      sample_offset += self.chunk_size
 
 class PaddedAudioChunker:
   def __init__(self, chunk_size: int, sample_rate: int, padding: int) -> None:
@@ -160,13 +160,13 @@ class PaddedAudioChunker:
   def buffer_size(self): return 0 if self.buffer is None else self.buffer.size
 
   def next(self, buf: np.ndarray, timestamp: int):
-    current_timestamp = timestamp - (self.buffer_size - self.padding) * 1000 // self.sample_rate
+    sample_offset = self.padding - self.buffer_size # the position of the chunk relative to the new buffer
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
     while self.buffer.size > self.process_buffer_size:
-      yield (self.buffer[:self.process_buffer_size], current_timestamp)
+      yield (self.buffer[:self.process_buffer_size], timestamp + sample_offset * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      sample_offset += self.chunk_size
 
   def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
 
-- 
2.43.0


From 9cf02a4092b6235bc96c1229ecb74575b5f4fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 096/158] fix: strip no padding from audio without padding

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 859ba0c..7da9368 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -168,7 +168,7 @@ class PaddedAudioChunker:
       self.buffer = self.buffer[self.chunk_size:]
       sample_offset += self.chunk_size
 
-  def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
+  def strip_padding(self, buf: np.ndarray): return buf[self.padding:buf.size - self.padding]
 
 class AudioSmoother:
   def __init__(self, overlap: int) -> None:
-- 
2.43.0


From e98c6778423763100fab071c64725720b57bf0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 097/158] fix: compensate the drift of an audio track only once

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 7da9368..8d903b2 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -233,7 +233,7 @@ class AudioSequencer:
       self._sample_buffer = samples
       self._buffer_start_time = time
     else:
-      self._desync_time += time - self.end_time
+      self._desync_time = time - self.end_time
       next_sample_count = self._sample_buffer.shape[0] + samples.shape[0]
       desync_sample_count: int = round(abs(self._desync_time) * self._sample_rate)
       if DEBUG_MIXER(): ddebug_value("track desync time", id(self), float(self._desync_time))
-- 
2.43.0


From ab6f7f1910406e1d733ca28aa93f7d3e402939f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 098/158] fix: treat u8 samples as unsigned

---
 streamtasks/media/audio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/audio.py b/streamtasks/media/audio.py
index 93ddaf6..ca767cc 100644
--- a/streamtasks/media/audio.py
+++ b/streamtasks/media/audio.py
@@ -23,8 +23,8 @@ _SAMPLE_FORMAT_NP_2_AV_INFO: dict[str, tuple[bool, type[np.dtype]]] = {
   "s32p": (True, np.int32),
   "s64": (False, np.int64),
   "s64p": (True, np.int64),
-  "u8": (False, np.int8),
-  "u8p": (True, np.int8),
+  "u8": (False, np.uint8),
+  "u8p": (True, np.uint8),
 }
 
 def get_audio_bytes_per_time_sample(sample_format: str, channels: int): # time sample != sample, time sample has all channels
-- 
2.43.0


From 5bc119ddd176741124416478f60d2082160997b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 099/158] fix: survive audio data of an odd length in the mixer

---
 streamtasks/system/tasks/media/audiomixer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 628cfe8..6f04be3 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass
 from fractions import Fraction
 from typing import Any
 import numpy as np
-from pydantic import BaseModel, field_validator, ValidationError
+from pydantic import BaseModel, field_validator
 from streamtasks.debugging import ddebug_value
 from streamtasks.client.topic import InTopic, SequentialInTopicSynchronizer
 from streamtasks.env import DEBUG_MIXER
@@ -94,7 +94,7 @@ class AudioMixerTask(Task):
             ddebug_value("track sample rate", id(track.sequencer), sample_count * 1000 / (message.timestamp - t0))
           track.sequencer.insert(Fraction(message.timestamp, 1000), samples)
           await self.send_next()
-      except ValidationError: pass
+      except ValueError: pass
 
   async def send_next(self):
     if any(True for track in self.audio_tracks if not track.is_paused and not track.sequencer.started): return # not ready yet
-- 
2.43.0


From df853f308fc27ce5a154c8822b1a14b79452db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 100/158] fix: mix no time twice

---
 streamtasks/system/tasks/media/audiomixer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 6f04be3..703519c 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -60,6 +60,7 @@ class AudioMixerTask(Task):
     self.audio_tracks = [ AudioTrackContext(topic=in_topic, sequencer=AudioSequencer(config.rate, config.max_stretch_ratio, config.buffer_keep_size), is_paused=False) for in_topic in in_topics ]
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
+    self.mixed_until: Fraction | None = None # the end of what has been sent
 
   async def run(self):
     async with AsyncExitStack() as exit_stack:
@@ -80,7 +81,9 @@ class AudioMixerTask(Task):
       try:
         data = await track.topic.recv_data_control()
         if isinstance(data, TopicControlData):
-          if track.is_paused and not data.paused: track.sequencer.reset(True) # hard reset on unpause
+          if track.is_paused and not data.paused:
+            track.sequencer.reset(True) # hard reset on unpause
+            if not any(other.sequencer.started for other in self.audio_tracks): self.mixed_until = None
           track.is_paused = data.paused
           t0 = None
           sample_count = 0
@@ -101,9 +104,11 @@ class AudioMixerTask(Task):
     start_times = [track.sequencer.start_time for track in self.audio_tracks if not track.is_paused]
     if len(start_times) == 0: return
     target_time = min(start_times)
+    if self.mixed_until is not None: target_time = max(target_time, self.mixed_until) # never mix a time twice
     num_sample_counts = min(track.sequencer.get_max_samples(target_time) for track in self.audio_tracks if not track.is_paused)
     if num_sample_counts <= 0: return
 
+    self.mixed_until = target_time + Fraction(num_sample_counts, self.config.rate)
     result: np.ndarray | None = None
     for track in self.audio_tracks:
       if DEBUG_MIXER() and track.sequencer.start_time:
-- 
2.43.0


From f28c41e74f7c89721ba1f77ec5b6d2642fa818f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 101/158] fix: saturate in the audio mixer and know the silence
 of u8

---
 streamtasks/system/tasks/media/audiomixer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 703519c..47ef069 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -8,7 +8,7 @@ from pydantic import BaseModel, field_validator
 from streamtasks.debugging import ddebug_value
 from streamtasks.client.topic import InTopic, SequentialInTopicSynchronizer
 from streamtasks.env import DEBUG_MIXER
-from streamtasks.media.audio import audio_buffer_to_ndarray
+from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_to_dtype
 from streamtasks.media.util import AudioSequencer, list_sample_formats
 from streamtasks.net.serialization import RawData
 from streamtasks.message.types import TimestampChuckMessage
@@ -61,6 +61,8 @@ class AudioMixerTask(Task):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
     self.mixed_until: Fraction | None = None # the end of what has been sent
+    self.dtype = sample_format_to_dtype(config.sample_format)
+    self.silence = 128 if self.dtype == np.uint8 else 0 # unsigned samples are centered around 128
 
   async def run(self):
     async with AsyncExitStack() as exit_stack:
@@ -90,6 +92,7 @@ class AudioMixerTask(Task):
         else:
           message = TimestampChuckMessage.model_validate(data.data)
           samples = audio_buffer_to_ndarray(message.data, self.config.sample_format)[0].reshape((-1, self.config.channels))
+          if np.issubdtype(self.dtype, np.integer): samples = samples.astype(np.int64) - self.silence # room for the sum
           if t0 is None: t0 = message.timestamp - 1
           sample_count += samples.shape[0]
           if DEBUG_MIXER():
@@ -121,6 +124,9 @@ class AudioMixerTask(Task):
         else: result = new_samples
       if track.is_paused: track.sequencer.reset()
 
+    if np.issubdtype(self.dtype, np.integer):
+      info = np.iinfo(self.dtype)
+      result = np.clip(result + self.silence, info.min, info.max).astype(self.dtype)
     if result.size != 0:
       await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=round(target_time * 1000), data=result.tobytes("C")).model_dump()))
 
-- 
2.43.0


From 795e7fc8dd608435c64204e09fcad7422a97b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 102/158] fix: survive audio data of an odd length in the
 volume tasks

---
 streamtasks/system/tasks/media/audiovolumemeter.py  | 2 +-
 streamtasks/system/tasks/media/audiovolumescaler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 93627c6..9d69d36 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -65,7 +65,7 @@ class AudioVolumeMeterTask(SyncTask):
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 8c417bd..129e204 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -75,7 +75,7 @@ class AudioVolumeScalerTask(SyncTask):
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
         samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
   async def _run_recv_scale(self):
     while True:
-- 
2.43.0


From 7f998ab9513c31e6d61abaefa44fc35ecc250dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 103/158] fix: scale audio with the factor in force when it
 arrived

---
 streamtasks/system/tasks/media/audiovolumescaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 129e204..1366454 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -46,7 +46,7 @@ class AudioVolumeScalerTask(SyncTask):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
     self.scale = config.default_scale
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[tuple[TimestampChuckMessage, float]] = queue.Queue() # message, scale
 
   @asynccontextmanager
   async def init(self):
@@ -71,9 +71,9 @@ class AudioVolumeScalerTask(SyncTask):
 
     while not self.stop_event.is_set():
       try:
-        message = self.message_queue.get(timeout=0.5)
+        message, scale = self.message_queue.get(timeout=0.5)
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
-        samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
+        samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
       except (queue.Empty, ValueError): pass
 
@@ -93,7 +93,7 @@ class AudioVolumeScalerTask(SyncTask):
       try:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
-        else: self.message_queue.put(TimestampChuckMessage.model_validate(data.data))
+        else: self.message_queue.put((TimestampChuckMessage.model_validate(data.data), self.scale))
       except (ValidationError, ValueError): pass
 
 class AudioVolumeScalerTaskHost(TaskHost):
-- 
2.43.0


From def5482462bf59ffded8ca31db4ae8f43e27506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 104/158] fix: saturate s64 samples

---
 streamtasks/system/tasks/media/audiovolumescaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 1366454..b0ffbb3 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -17,7 +17,7 @@ from streamtasks.utils import context_task
 def get_dtype_min_max(dtype: np.dtype):
   if np.issubdtype(dtype, np.integer):
     info = np.iinfo(dtype)
-    return info.min, info.max
+    return info.min, (info.max if float(info.max) <= info.max else np.nextafter(float(info.max), 0)) # must not exceed the range when converted to float
   else: return (-1, 1)
 
 class AudioVolumeScalerConfigBase(BaseModel):
-- 
2.43.0


From 8032962b163fa5b3e1636899d9a433c2fd3f7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 105/158] fix: scale u8 samples around their silence

---
 streamtasks/system/tasks/media/audiovolumescaler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index b0ffbb3..9649f52 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -69,11 +69,13 @@ class AudioVolumeScalerTask(SyncTask):
     samples_dtype = sample_format_to_dtype(self.config.sample_format)
     samples_dtype_min_max = get_dtype_min_max(samples_dtype)
 
+    silence = 128 if samples_dtype == np.uint8 else 0 # unsigned samples are centered around 128
+
     while not self.stop_event.is_set():
       try:
         message, scale = self.message_queue.get(timeout=0.5)
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
-        samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
+        samples = np.clip((samples - float(silence)) * scale + silence if silence else samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
       except (queue.Empty, ValueError): pass
 
-- 
2.43.0


From 846d3b6255dceecf486b837f978c3f7a0de52adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 106/158] fix: measure the lowest sample value

---
 streamtasks/system/tasks/media/audiovolumemeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 9d69d36..4d51dc3 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -64,7 +64,7 @@ class AudioVolumeMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64)) / self.max_value))).model_dump()))
       except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
-- 
2.43.0


From 86b817cf7c9077daf638b0cc2152bd6115aa5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 107/158] fix: measure u8 samples around their silence

---
 streamtasks/system/tasks/media/audiovolumemeter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 4d51dc3..d696f6d 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -35,7 +35,8 @@ class AudioVolumeMeterTask(SyncTask):
     self.in_topic = self.client.in_topic(config.in_topic)
     self.config = config
     sample_dtype = sample_format_to_dtype(self.config.sample_format)
-    self.max_value = float(max_dtype_value(sample_dtype))
+    self.silence = 128 if sample_dtype == np.uint8 else 0 # unsigned samples are centered around 128
+    self.max_value = float(max_dtype_value(sample_dtype) - self.silence)
     self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
 
   @asynccontextmanager
@@ -64,7 +65,7 @@ class AudioVolumeMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64)) / self.max_value))).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64) - self.silence) / self.max_value))).model_dump()))
       except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
-- 
2.43.0


From fcbc34df823c7820fee575b87829443e1aa4f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 108/158] fix: merge whole pixels only

---
 streamtasks/media/video_perf_all.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/media/video_perf_all.cpp b/streamtasks/media/video_perf_all.cpp
index ce8c713..a240d68 100644
--- a/streamtasks/media/video_perf_all.cpp
+++ b/streamtasks/media/video_perf_all.cpp
@@ -19,6 +19,8 @@ py::bytes merge_images(std::vector<py::bytes> images, bool alpha_front) {
         image_data.push_back((uint8_t*)v.data());
     }
     
+    image_size -= image_size % ALPHA_PIXEL_SIZE; // whole pixels only
+
     std::string out_str(image_size, '\0');
     uint8_t* out_data = (uint8_t*)out_str.data();
 
-- 
2.43.0


From 13bf67c793066e60e0f2e383b187ddf809ab92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 109/158] fix: ignore frames of another size in the video mixer

---
 streamtasks/system/tasks/media/videomixer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index d97ab30..11f3295 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -105,8 +105,10 @@ class VideoMixerTask(SyncTask):
         data = await track.topic.recv_data_control()
         if isinstance(data, TopicControlData): track.last_message = None
         else:
+          message = TimestampChuckMessage.model_validate(data.data)
+          if len(message.data) != self.config.width * self.config.height * 4: continue # not a frame of this video
           if last_frame_count == self.frame_count: self.submit_job()
-          track.last_message = TimestampChuckMessage.model_validate(data.data)
+          track.last_message = message
           last_frame_count = self.frame_count
       except ValidationError: pass
 
-- 
2.43.0


From 44850a180dd24c0e3f5320ee73c587f4f63141e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 110/158] fix: draw the background of the video mixer

---
 streamtasks/system/tasks/media/videomixer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index 11f3295..9a2e169 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -123,10 +123,11 @@ class VideoMixerTask(SyncTask):
 
   def run_sync(self):
     timeout = 2 / self.config.rate
+    background = self.config.bgcolor.tobytes() * (self.config.width * self.config.height)
     while not self.stop_event.is_set():
       try:
         job = self.job_queue.get(timeout=timeout)
-        result = merge_images([ frame for frame in job.frames ], self.config.alpha_front)
+        result = merge_images([ background, *job.frames ], self.config.alpha_front)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=job.timestamp, data=result).model_dump()))
       except queue.Empty: pass
 
-- 
2.43.0


From d8f37806d7c1f15b26c9c5d311b98e024f8b0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 111/158] fix: keep a decoding time of zero

---
 streamtasks/media/packet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index b3caefe..7df032c 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -28,7 +28,7 @@ class MediaPacket:
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
     time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.dts or packet.pts)) * time_base_factor)
+    rel_dts = int((packet.pts - (packet.pts if packet.dts is None else packet.dts)) * time_base_factor)
     pts = int(packet.pts * time_base_factor)
     return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
 
-- 
2.43.0


From bf37a3118366f310e72310c2fd150662778f0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 112/158] fix: round packet times exactly

---
 streamtasks/media/packet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index 7df032c..7a685b6 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -1,6 +1,7 @@
 from streamtasks.message.types import TimestampMessage
 from dataclasses import dataclass
 from fractions import Fraction
+from math import floor
 import av
 
 @dataclass
@@ -27,10 +28,10 @@ class MediaPacket:
   @staticmethod
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
-    time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.pts if packet.dts is None else packet.dts)) * time_base_factor)
-    pts = int(packet.pts * time_base_factor)
-    return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
+    time_base_factor = packet.time_base / time_base
+    dts = floor((packet.pts if packet.dts is None else packet.dts) * time_base_factor + Fraction(1, 2)) # nearest, in order
+    pts = floor(packet.pts * time_base_factor + Fraction(1, 2))
+    return MediaPacket(bytes(packet), pts, pts - dts, packet.is_keyframe)
 
 class MediaMessage(TimestampMessage):
   packet: MediaPacket
-- 
2.43.0


From 064ddd4ce49b18f26db09c174b6e1c3a9eb4f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 113/158] fix: keep one pixel wide grey images

---
 streamtasks/media/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index da0150c..c3f2f1d 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -16,7 +16,7 @@ from streamtasks.utils import hertz_to_fintervall
 # TODO: endianness
 def video_buffer_to_ndarray(buf: ByteString, width: int, height: int):
   bitmap = np.frombuffer(buf, dtype=np.uint8).reshape((height, width, -1))
-  if bitmap.shape[-1] == 1: bitmap = bitmap.squeeze()
+  if bitmap.shape[-1] == 1: bitmap = bitmap.squeeze(axis=-1)
   return bitmap
 
 class VideoFrame(Frame[av.VideoFrame]):
-- 
2.43.0


From 849e5ec5e52a3a965d09f98a25c982e42953da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 114/158] fix: ignore unusable data in the encoders

---
 streamtasks/system/tasks/media/audioencoder.py |  9 ++++++---
 streamtasks/system/tasks/media/videoencoder.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/streamtasks/system/tasks/media/audioencoder.py b/streamtasks/system/tasks/media/audioencoder.py
index ab220ad..1aa662b 100644
--- a/streamtasks/system/tasks/media/audioencoder.py
+++ b/streamtasks/system/tasks/media/audioencoder.py
@@ -63,9 +63,12 @@ class AudioEncoderTask(SyncTask):
       try:
         message = self.frame_data_queue.get(timeout=timeout)
         if self.t0 is None: self.t0 = message.timestamp
-        frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.channels, self.config.rate)
-        frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
-        packets = self.encoder.encode_sync(frame)
+        if len(message.data) == 0: continue
+        try:
+          frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.channels, self.config.rate)
+          frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
+          packets = self.encoder.encode_sync(frame)
+        except ValueError: continue # no whole samples
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 3e9fccb..e3f0e5d 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -2,7 +2,7 @@ from contextlib import asynccontextmanager
 from fractions import Fraction
 from typing import Any
 from pydantic import BaseModel, ValidationError
-from streamtasks.media.video import VideoCodecInfo, VideoFrame, video_buffer_to_ndarray
+from streamtasks.media.video import VideoCodecInfo, VideoFrame
 from streamtasks.net.serialization import RawData
 from streamtasks.media.packet import MediaMessage
 from streamtasks.message.types import TimestampChuckMessage
@@ -70,10 +70,11 @@ class VideoEncoderTask(SyncTask):
       try:
         message = self.frame_data_queue.get(timeout=timeout)
         if self.t0 is None: self.t0 = message.timestamp
-        bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
-        frame = VideoFrame.from_ndarray(bitmap, self.config.in_pixel_format)
-        frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
-        packets = self.encoder.encode_sync(frame)
+        try:
+          frame = VideoFrame.from_buffer(message.data, self.config.width, self.config.height, self.config.in_pixel_format)
+          frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
+          packets = self.encoder.encode_sync(frame)
+        except ValueError: continue # not a frame of the configured size
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-- 
2.43.0


From a9a023c72f1f3519d3c3e1605e5de92b1503bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 115/158] fix: round frame times

---
 streamtasks/media/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index ef9bfc3..69f6835 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -27,7 +27,7 @@ class Frame(ABC, Generic[T]):
     else: return self.frame.time_base * self.frame.pts
 
   def set_ts(self, time: Fraction, time_base: Fraction):
-    ts = int(time / time_base)
+    ts = round(time / time_base)
     self.frame.time_base = time_base
     self.frame.dts = ts
     self.frame.pts = ts
-- 
2.43.0


From 63284c038fdf62d16ecd3db37ea2d6cbf33ad5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 116/158] fix: decode video in its own pixel format

---
 streamtasks/system/tasks/media/videodecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index b6528de..f0427b5 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -38,7 +38,7 @@ class VideoDecoderTask(Task):
       width=config.width,
       height=config.height,
       frame_rate=config.rate,
-      pixel_format=config.out_pixel_format,
+      pixel_format=config.in_pixel_format,
       codec=config.decoder, options=config.codec_options)
     self.decoder = codec_info.get_decoder()
 
-- 
2.43.0


From 2b2a7d5d449644fa7cbe5e04cfb0702078e79b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 117/158] fix: ignore undecodable packets

---
 streamtasks/system/tasks/media/audiodecoder.py | 4 ++--
 streamtasks/system/tasks/media/videodecoder.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiodecoder.py b/streamtasks/system/tasks/media/audiodecoder.py
index ec09aaa..b21047d 100644
--- a/streamtasks/system/tasks/media/audiodecoder.py
+++ b/streamtasks/system/tasks/media/audiodecoder.py
@@ -1,5 +1,5 @@
 from typing import Any
-from pydantic import BaseModel, ValidationError
+from pydantic import BaseModel
 from streamtasks.debugging import ddebug_value
 from streamtasks.env import DEBUG_MEDIA
 from streamtasks.media.audio import AudioCodecInfo, AudioFrame
@@ -54,7 +54,7 @@ class AudioDecoderTask(Task):
             for frame in frames: # TODO: endianness
               if DEBUG_MEDIA(): ddebug_value("decoder dtime", float(frame.dtime))
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=frame.to_ndarray().tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except ValueError: pass # invalid message or undecodable data
     finally:
       self.decoder.close()
 
diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index f0427b5..07922a0 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -1,5 +1,5 @@
 from typing import Any
-from pydantic import BaseModel, ValidationError
+from pydantic import BaseModel
 from streamtasks.media.video import VideoCodecInfo, VideoFrame
 from streamtasks.net.serialization import RawData
 from streamtasks.media.packet import MediaMessage
@@ -55,7 +55,7 @@ class VideoDecoderTask(Task):
             for frame in frames: # TODO: endianness
               bitmap = frame.convert(width=self.config.width, height=self.config.height, pixel_format=self.config.out_pixel_format).to_ndarray()
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=bitmap.tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except ValueError: pass # invalid message or undecodable data
     finally:
       self.decoder.close()
 
-- 
2.43.0


From d8df7f471cf54990bc2adbf287804132f8df4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 118/158] fix: support fractional frame rates

---
 streamtasks/media/video.py | 2 +-
 streamtasks/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index c3f2f1d..27c1564 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -92,7 +92,7 @@ class VideoCodecInfo(CodecInfo[VideoFrame]):
     if mode not in ('r', 'w'): raise ValueError(f'Invalid mode: {mode}. Must be "r" or "w".')
     ctx: av.video.codeccontext.VideoCodecContext = av.video.codeccontext.VideoCodecContext.create(self.codec, mode)
     ctx.format = self.to_av_format()
-    ctx.framerate = self.frame_rate
+    ctx.framerate = 1 / self.time_base
 
     apply_options_to_codec_context(ctx, self.options)
 
diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 10217f0..b34b372 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -339,4 +339,4 @@ def make_json_serializable(v: Any):
   if isinstance(v, list): return [ make_json_serializable(v) for v in v ]
   return repr(v)
 
-def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f)
+def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f).limit_denominator(1000000)
-- 
2.43.0


From d5cd4106998312a0324b1803f1500ef87a892134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 119/158] fix: use the exact ratio of frame rates

---
 streamtasks/media/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index 27c1564..d0b6498 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -133,7 +133,7 @@ class VideoReformatter(Reformatter[VideoFrame]):
     self.to_codec = to_codec
     self.from_codec = from_codec
     self.reformatter = av.video.reformatter.VideoReformatter()
-    self.frame_duation = Fraction(to_codec.frame_rate / from_codec.frame_rate)
+    self.frame_duation = from_codec.time_base / to_codec.time_base
     self.rel_frame_counter = Fraction(0)
     self.min_pts = -2**31
 
-- 
2.43.0


From df27db09d5b1bf6576f9a37b621d4f4795227aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 120/158] fix: keep the frame spacing for videos that do not
 start at zero

---
 streamtasks/media/video.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index d0b6498..aa48e9e 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -2,6 +2,7 @@ import ctypes
 from dataclasses import dataclass
 from fractions import Fraction
 from functools import cached_property
+from math import floor
 from typing import Any, ByteString, Literal
 import av.video.reformatter
 import av
@@ -134,10 +135,13 @@ class VideoReformatter(Reformatter[VideoFrame]):
     self.from_codec = from_codec
     self.reformatter = av.video.reformatter.VideoReformatter()
     self.frame_duation = from_codec.time_base / to_codec.time_base
-    self.rel_frame_counter = Fraction(0)
+    self.rel_frame_counter: Fraction | None = None
     self.min_pts = -2**31
 
   async def reformat(self, frame: VideoFrame) -> list[VideoFrame]:
+    time_base = frame.frame.time_base if frame.frame.time_base is not None else self.from_codec.time_base
+    position = (time_base * frame.frame.pts) / self.to_codec.time_base
+    if self.rel_frame_counter is None: self.rel_frame_counter = position % 1
     self.rel_frame_counter += self.frame_duation
     frame_count = int(self.rel_frame_counter)
     self.rel_frame_counter -= frame_count
@@ -148,9 +152,8 @@ class VideoReformatter(Reformatter[VideoFrame]):
     assert frame.frame.format.name == self.from_codec.pixel_format
 
     out_frame = self.reformatter.reformat(frame.frame, width=self.to_codec.width, height=self.to_codec.height, format=self.to_codec.pixel_format)
-    time_base = frame.frame.time_base if frame.frame.time_base is not None else self.from_codec.time_base
 
-    pts = max(int((time_base * frame.frame.pts) * self.to_codec.frame_rate), self.min_pts)
+    pts = max(floor(position), self.min_pts)
     self.min_pts = pts + frame_count
 
     frames: list[VideoFrame] = []
-- 
2.43.0


From d8ac9461ad4e29436e27dce872e3ad43a7bd97bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 121/158] fix: support fractional frame rates in the video
 reformatter

---
 streamtasks/system/tasks/media/videoreformatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videoreformatter.py b/streamtasks/system/tasks/media/videoreformatter.py
index fb7aa7c..0083b21 100644
--- a/streamtasks/system/tasks/media/videoreformatter.py
+++ b/streamtasks/system/tasks/media/videoreformatter.py
@@ -9,6 +9,7 @@ from streamtasks.system.tasks.media.utils import MediaEditorFields
 from streamtasks.system.configurators import IOTypes, static_configurator
 from streamtasks.system.task import Task, TaskHost
 from streamtasks.client import Client
+from streamtasks.utils import hertz_to_fintervall
 
 class VideoReformatterConfigBase(BaseModel):
   in_pixel_format: IOTypes.PixelFormat = "bgr24"
@@ -48,7 +49,7 @@ class VideoReformatterTask(Task):
             message = TimestampChuckMessage.model_validate(data.data)
             if t0 is None: t0 = message.timestamp
             frame = VideoFrame.from_buffer(message.data, self.config.in_width, self.config.in_height, self.config.in_pixel_format)
-            frame.set_ts(Fraction(message.timestamp - t0, 1000), Fraction(1, self.config.in_rate))
+            frame.set_ts(Fraction(message.timestamp - t0, 1000), hertz_to_fintervall(self.config.in_rate))
             for nframe in await self.reformatter.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
         except (ValidationError, ValueError): pass
-- 
2.43.0


From da9acbf810f2b042511b39f86fe2831315724096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 122/158] fix: copy frames line by line

---
 streamtasks/media/video.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index aa48e9e..bc839b8 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -117,7 +117,8 @@ def copy_av_video_frame(frame: av.VideoFrame) -> av.VideoFrame:
   new_frame.color_range = frame.color_range
   assert len(frame.planes) == len(new_frame.planes)
   for a, b in zip(new_frame.planes, frame.planes):
-    ctypes.memmove(a.buffer_ptr, b.buffer_ptr, min(a.buffer_size, b.buffer_size))
+    line_size = min(a.line_size, b.line_size) # lines may be padded differently
+    for y in range(a.height): ctypes.memmove(a.buffer_ptr + y * a.line_size, b.buffer_ptr + y * b.line_size, line_size)
   return new_frame
 
 class FrameReformatter:
-- 
2.43.0


From f6cc64fff275c4caa9600fdf248061603c7f4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 123/158] fix: video layout ignores frames of the wrong size

---
 streamtasks/system/tasks/media/videolayout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index 36344db..1145f81 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -81,6 +81,7 @@ class VideoLayoutTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=timeout)
+        if len(message.data) != self.config.in_width * self.config.in_height * 4: continue # not a frame of the configured size
         arr = video_buffer_to_ndarray(message.data, self.config.in_width, self.config.in_height)
         arr = cv2.resize(arr, (self.config.place_width, self.config.place_height), interpolation=cv2.INTER_LINEAR)
         arr = arr[:self.config.apply_height,:self.config.apply_width,:]
-- 
2.43.0


From 42d4734b5f1db45e1df6d70a1f5bcda22134ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 124/158] fix: measure video activity without wrapping

---
 streamtasks/system/tasks/media/videoactivitymeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 5ca58b0..69501ff 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -60,7 +60,7 @@ class VideoActivityMeterTask(SyncTask):
         message = self.message_queue.get(timeout=timeout)
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         if last_bitmap is not None:
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.int16) - bitmap).flatten().mean()).model_dump()))
         last_bitmap = bitmap
       except queue.Empty: pass
 
-- 
2.43.0


From f3bb5f5bdb280d0ce24e7423034ac2ba5dd62132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 125/158] fix: activity meter ignores frames of the wrong size

---
 streamtasks/system/tasks/media/videoactivitymeter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 69501ff..97fb24d 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -1,6 +1,7 @@
 from contextlib import asynccontextmanager
 import queue
 from typing import Any
+import av
 import numpy as np
 from pydantic import BaseModel, ValidationError
 from streamtasks.media.video import video_buffer_to_ndarray
@@ -55,9 +56,11 @@ class VideoActivityMeterTask(SyncTask):
   def run_sync(self):
     last_bitmap: None | np.ndarray = None
     timeout = 2 / self.config.rate
+    frame_size = av.VideoFormat(self.config.pixel_format).padded_bits_per_pixel * self.config.width * self.config.height // 8
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=timeout)
+        if len(message.data) != frame_size: continue # not a frame of the configured size
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         if last_bitmap is not None:
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.int16) - bitmap).flatten().mean()).model_dump()))
-- 
2.43.0


From 6701b6375fc9588ba17481ddcc70843da74ab0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 126/158] fix: write video with fractional frame rates

---
 streamtasks/media/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index b63ffde..df85709 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -172,7 +172,7 @@ class OutputContainer:
   def add_video_stream(self, codec_info: VideoCodecInfo):
     time_base = codec_info.time_base
     if time_base is None: raise ValueError("time_base must not be None")
-    stream = self._container.add_stream(codec_name=codec_info.codec, rate=codec_info.frame_rate, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
+    stream = self._container.add_stream(codec_name=codec_info.codec, rate=1 / time_base, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
     return AVOutputStream(self._ctx, time_base, stream)
 
   def add_audio_stream(self, codec_info: AudioCodecInfo):
-- 
2.43.0


From f4a1300df34545b8237a1d31fe9778b3ad6b50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 127/158] fix: count the samples of raw audio packets

---
 streamtasks/media/container.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index df85709..ca1dd0d 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -116,8 +116,10 @@ class InputContainer:
     return InputContainer(container)
 
 class AVOutputStream:
-  def __init__(self, ctx: _StreamContext, time_base: Fraction, stream: av.stream.Stream) -> None:
+  def __init__(self, ctx: _StreamContext, codec_info: CodecInfo, time_base: Fraction, stream: av.stream.Stream) -> None:
     self._stream = stream
+    self._codec_info = codec_info
+    self._sample_counter: Decoder | None = None
     self._ctx = ctx
     self._time_base = time_base
     self._dts_counter = 0
@@ -153,11 +155,18 @@ class AVOutputStream:
       await loop.run_in_executor(None, self._stream.container.mux, av_packet)
       assert av_packet.dts <= av_packet.pts, "dts must be lower than pts after muxing"
       if self._stream.type == "audio":
-        self._dts_counter += int(self._stream.codec_context.frame_size)
+        self._dts_counter += self._count_samples(packet)
       else:
         self._dts_counter += 1
       self._ctx.set_sync_channel_time(self._sync_channel, self._time_base * self._dts_counter)
 
+  def _count_samples(self, packet: MediaPacket):
+    frame_size = int(self._stream.codec_context.frame_size)
+    if frame_size != 0: return frame_size
+    # NOTE: pcm codecs have no fixed frame size
+    if self._sample_counter is None: self._sample_counter = self._codec_info.get_decoder()
+    return sum(frame.samples for frame in self._sample_counter._decode(packet.to_av_packet(self._time_base)))
+
 class OutputContainer:
   def __init__(self, container: av.container.OutputContainer):
     self._container: av.OutputContainer = container
@@ -173,13 +182,13 @@ class OutputContainer:
     time_base = codec_info.time_base
     if time_base is None: raise ValueError("time_base must not be None")
     stream = self._container.add_stream(codec_name=codec_info.codec, rate=1 / time_base, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
-    return AVOutputStream(self._ctx, time_base, stream)
+    return AVOutputStream(self._ctx, codec_info, time_base, stream)
 
   def add_audio_stream(self, codec_info: AudioCodecInfo):
     time_base = codec_info.time_base
     if time_base is None: raise ValueError("time_base must not be None")
     stream = self._container.add_stream(codec_name=codec_info.codec, rate=codec_info.sample_rate, channels=codec_info.channels, format=codec_info.to_av_format(), options=codec_info.options)
-    return AVOutputStream(self._ctx, time_base, stream)
+    return AVOutputStream(self._ctx, codec_info, time_base, stream)
 
   @staticmethod
   async def open(file: str | BinaryIO, **kwargs):
-- 
2.43.0


From 3c540abe65acde110e9dad976d1b8bccabd88d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 128/158] fix: end consumers of a failing producer

---
 streamtasks/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index b34b372..c1e7661 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -204,10 +204,10 @@ class AsyncProducer(Generic[T0]):
     try:
       if self._ended: raise EOFError()
       await self.run()
-    except EOFError:
+    except asyncio.CancelledError: pass
+    except BaseException: # nothing more will come
       self._on_ended()
       raise
-    except asyncio.CancelledError: pass
 
   def _on_ended(self):
     self._ended = True
-- 
2.43.0


From 3a06226152d8298c9c6d23c1e231642351d837d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 129/158] fix: read packets without a decoding time

---
 streamtasks/media/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index ca1dd0d..e035f56 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -46,7 +46,7 @@ class _Demuxer(AsyncMPProducer[av.Packet]):
       try:
         av_packet = next(demux_iter)
         if av_packet.size == 0 and av_packet.dts is None and av_packet.pts is None: raise EOFError()
-        assert av_packet.dts <= av_packet.pts, "dts must be lower than pts while demuxing"
+        assert av_packet.dts is None or av_packet.dts <= av_packet.pts, "dts must be lower than pts while demuxing"
         self.send_message(av_packet)
       except StopIteration: raise EOFError()
       except TimeoutError: pass
-- 
2.43.0


From b79b971264829e2e44b6016bc939c6c832dc4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 130/158] fix: stop container tasks that have not opened their
 container

---
 streamtasks/system/tasks/media/inputcontainer.py  | 4 ++--
 streamtasks/system/tasks/media/outputcontainer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index bc5c0a9..71ebbb0 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -81,6 +81,8 @@ class InputContainerTask(Task):
     except EOFError: pass
 
   async def run(self):
+    container: InputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       source = self.config.source
       if self.config.source_secret:
@@ -90,8 +92,6 @@ class InputContainerTask(Task):
         source += await secret_manager_client.resolve_secret(self.config.source_secret)
         await self.client.stop_wait()
 
-      container: InputContainer | None = None
-      tasks: list[asyncio.Task] = []
       container = await InputContainer.open(source, **self.config.container_options)
       tasks = [
         *(asyncio.create_task(self._run_stream(container.get_video_stream(idx, cfg.to_codec_info(), cfg.force_transcode), cfg.out_topic)) for idx, cfg in enumerate(self.config.video_tracks)),
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index b9362e2..d24a15d 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -135,6 +135,7 @@ class OutputContainerTask(Task):
         except ValidationError: pass
 
   async def run(self):
+    container: OutputContainer | None = None
     try:
       destination = self.config.destination
       if self.config.destination_secret:
@@ -144,7 +145,6 @@ class OutputContainerTask(Task):
         destination += await secret_manager_client.resolve_secret(self.config.destination_secret)
         await self.client.stop_wait()
 
-      container: OutputContainer | None = None
       container = await OutputContainer.open(destination, **self.config.container_options)
       streams: dict[int, AVOutputStream] = {}
       streams.update({ cfg.in_topic: container.add_video_stream(cfg.to_codec_info()) for cfg in self.config.video_tracks })
-- 
2.43.0


From d1f75bbee68d1b2c50c57860cc04f399260ec1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 131/158] fix: take the frame rate from the container

---
 streamtasks/media/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index e035f56..082456d 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -67,11 +67,13 @@ class AVInputStream:
     self.out_time_base = target_codec.time_base
     self.stream_time_base = self.out_time_base
     try:
+      # NOTE: for many codecs only the container knows the frame rate
+      if stream.type == "video" and stream.codec_context.rate is None: stream.codec_context.framerate = stream.guessed_rate
       codec_info = CodecInfo.from_codec_context(stream.codec_context)
       if force_transcode or not target_codec.compatible_with(codec_info):
         self._transcoder = AVTranscoder(Decoder(codec_info, codec_context=stream.codec_context), target_codec.get_encoder())
         self.stream_time_base = self._transcoder.decoder.time_base
-    except TypeError: pass # NOTE: some contexts dont have all the codec info
+    except (TypeError, AttributeError): pass # NOTE: some contexts dont have all the codec info
 
   @property
   def codec_info(self) -> CodecInfo: return CodecInfo.from_codec_context(self._stream.codec_context)
-- 
2.43.0


From 6ac6dc988ae110d1a176c506c84a1ccb706b0604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 132/158] fix: paused tracks do not hold back the output
 container

---
 streamtasks/media/container.py                    | 5 +++++
 streamtasks/system/tasks/media/outputcontainer.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index 082456d..3473247 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -1,6 +1,7 @@
 import dataclasses
 from fractions import Fraction
 import functools
+from math import ceil
 from typing import BinaryIO
 import av.container
 import av.stream
@@ -135,6 +136,10 @@ class AVOutputStream:
     self._dts_counter = max(self._dts_counter, int(duration / self._time_base))
     self._ctx.set_sync_channel_time(self._sync_channel, self.duration)
 
+  def advance(self, duration: Fraction):
+    """ Moves the stream to the first position that is not before duration. """
+    self.duration = ceil(duration / self._time_base) * self._time_base
+
   @property
   def ready_for_packet(self): return self._ctx.is_min(self._sync_channel)
 
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index d24a15d..755c777 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -93,7 +93,7 @@ class OutputContainerSynchronizer(InTopicSynchronizer):
 
     for other_topic_id, other_stream in self._streams.items():
       if other_topic_id not in self.topic_timestamps:
-        other_stream.duration = duration
+        other_stream.advance(stream.duration) # must not hold back this stream
 
     if DEBUG_MEDIA() and drop:
       self._oc_dropped_packets += 1
-- 
2.43.0


From 136af27ec7032803fb67da38d7cb65b419d8ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 133/158] fix: the editor locks combined choices of a connected
 input

---
 web-packages/core/src/static-editor/editor.tsx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/web-packages/core/src/static-editor/editor.tsx b/web-packages/core/src/static-editor/editor.tsx
index b354221..4e88ff8 100644
--- a/web-packages/core/src/static-editor/editor.tsx
+++ b/web-packages/core/src/static-editor/editor.tsx
@@ -251,13 +251,14 @@ function DynamicSelectFieldEditor(props: { config: DynamicSelectField, data: Rec
 function MultiselectFieldEditor(props: { config: MultiselectField, data: Record<string, any>, onUpdated: () => void, disabledFields?: Set<string>, disableAll: boolean }) {
     const keys = Object.keys(props.config.items[0]);
 
-    const keyItems = useMemo(() => {
-        return Object.fromEntries(keys.map(key => [key, Array.from(new Set(props.config.items.map(item => item[key])))]))
-    }, [props.config]);
+    // a locked key keeps its value, so only items with that value can be selected
+    const lockedKeys = keys.filter(key => props.disabledFields?.has(key));
+    const selectableItems = props.config.items.filter(item => lockedKeys.every(key => item[key] === props.data[key]));
+    const getKeyItems = (key: string) => Array.from(new Set((lockedKeys.includes(key) ? props.config.items : selectableItems).map(item => item[key])));
 
     const updateOthers = (key: string) => {
         const value = props.data[key];
-        let remainingItems = props.config.items.filter(item => item[key] === value);
+        let remainingItems = selectableItems.filter(item => item[key] === value);
         const others = keys.map(okey => [okey, remainingItems.filter(item => item[okey] === props.data[okey]).length] as [string, number]).sort((a, b) => b[1] - a[1]).map(v => v[0]);
         for (const otherKey of others) {
             const nrem = remainingItems.filter(item => item[otherKey] === props.data[otherKey]);
@@ -278,13 +279,14 @@ function MultiselectFieldEditor(props: { config: MultiselectField, data: Record<
                 id={`select-field-${key}`}
                 value={props.data[key] ?? undefined}
                 size="small"
+                disabled={props.disableAll || lockedKeys.includes(key)}
                 onChange={e => {
                     props.data[key] = e.target.value;
                     updateOthers(key);
                     props.onUpdated();
                 }}
             >
-                {keyItems[key].map(item => <MenuItem value={item} key={String(item)} sx={{ textTransform: "uppercase" }}>{item}</MenuItem>)}
+                {getKeyItems(key).map(item => <MenuItem value={item} key={String(item)} sx={{ textTransform: "uppercase" }}>{item}</MenuItem>)}
             </Select>
         </FormControl>
     ));
-- 
2.43.0


From cb950cdcfd6a1fbd6d91735c4f7bc56611826cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 134/158] fix: the codec of a video decoder can be chosen

---
 streamtasks/system/tasks/media/videodecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index 07922a0..2874e9a 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -71,7 +71,7 @@ class VideoDecoderTaskHost(TaskHost):
     editor_fields=[
       MediaEditorFields.pixel_format("in_pixel_format", "input pixel format"),
       MediaEditorFields.pixel_format("out_pixel_format", "output pixel format"),
-      MediaEditorFields.video_codec("r", codec_key="decoder"),
+      MediaEditorFields.video_codec("r", coder_key="decoder"),
       MediaEditorFields.pixel_size("width"),
       MediaEditorFields.pixel_size("height"),
       MediaEditorFields.frame_rate(),
-- 
2.43.0


From 4bc47685160ca560edab496e9be2f64f552f2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 135/158] fix: tracks refuse streams of another kind

---
 web-packages/std-configurators/src/entries/multitrackio.tsx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web-packages/std-configurators/src/entries/multitrackio.tsx b/web-packages/std-configurators/src/entries/multitrackio.tsx
index 8165627..557af21 100644
--- a/web-packages/std-configurators/src/entries/multitrackio.tsx
+++ b/web-packages/std-configurators/src/entries/multitrackio.tsx
@@ -5,7 +5,7 @@ import cloneDeep from "clone-deep";
 import { ReactNode, useEffect, useMemo, useState } from "react";
 import { StaticCLSConfigurator } from "./static";
 import { v4 as uuidv4 } from "uuid";
-import { MetadataModel, StaticEditor, parseMetadataField, GraphSetter, createCLSConfigurator, EditorField, EditorFieldModel, theme, getConfigModelByFields, Task } from "@streamtasks/core";
+import { MetadataModel, StaticEditor, parseMetadataField, GraphSetter, createCLSConfigurator, EditorField, EditorFieldModel, theme, getConfigModelByFields, compareIOIgnorePaths, Task } from "@streamtasks/core";
 
 const TrackConfigModel = z.object({
     key: z.string(),
@@ -199,6 +199,9 @@ class MultiTrackInputConfigurator extends MultiTrackConfigurator {
             for (const [fieldKey, validator] of Object.entries(getConfigModelByFields(track.config.editorFields))) {
                 setter.addValidator(`config.${track.config.key}_tracks.${track.index}.${fieldKey}`, v => validator.safeParse(v).success);
             }
+            const mappedFields = [...Object.values(track.config.ioMap), ...Object.values(track.config.globalIOMap ?? {})];
+            const disableFields = Object.keys(track.config.defaultIO).filter(k => !compareIOIgnorePaths.has(k) && !mappedFields.includes(k));
+            disableFields.forEach(field => setter.addValidator(`inputs.${inputIndex}.${field}`, () => false));
         })
         return setter;
     }
-- 
2.43.0


From 2b3e95076de693f4fa570c2b6f380986f266bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 136/158] fix: a task's window keeps its editor and display
 while they are used

---
 web-packages/app/src/components/TaskDisplayWindow.tsx | 2 +-
 web-packages/app/src/components/TaskEditorWindow.tsx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/web-packages/app/src/components/TaskDisplayWindow.tsx b/web-packages/app/src/components/TaskDisplayWindow.tsx
index 6bc29ad..1ae080f 100644
--- a/web-packages/app/src/components/TaskDisplayWindow.tsx
+++ b/web-packages/app/src/components/TaskDisplayWindow.tsx
@@ -20,7 +20,7 @@ export function TaskDisplayWindow(props: { task: ManagedTask, onClose: () => voi
         if (!props.task.hasDisplay || !customDisplayRef.current) return;
         customDisplayRef.current.innerHTML = "";
         props.task.renderDisplay(customDisplayRef.current, { context: "task" });
-    }, [props.task, customDisplayRef.current]);
+    }, [props.task]);
 
     return (
         <TaskWindow>
diff --git a/web-packages/app/src/components/TaskEditorWindow.tsx b/web-packages/app/src/components/TaskEditorWindow.tsx
index 6c610e2..9dc2a10 100644
--- a/web-packages/app/src/components/TaskEditorWindow.tsx
+++ b/web-packages/app/src/components/TaskEditorWindow.tsx
@@ -64,7 +64,7 @@ export function TaskEditorWindow(props: { task: ManagedTask, onClose: () => void
         return () => {
             customEditorRef.current?.removeEventListener("task-instance-updated", taskUpdateHandler)
         }
-    }, [props.task, customEditorRef.current]);
+    }, [props.task]);
 
 
     const taskUpdateCounter = useTaskUpdate(props.task, () => {
-- 
2.43.0


From 096b5f9ba94957949a68472013fddb74cb5e1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 137/158] fix: fields of the task editor follow values changed
 from outside

---
 .../core/src/static-editor/editor.tsx         | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/web-packages/core/src/static-editor/editor.tsx b/web-packages/core/src/static-editor/editor.tsx
index 4e88ff8..e97c927 100644
--- a/web-packages/core/src/static-editor/editor.tsx
+++ b/web-packages/core/src/static-editor/editor.tsx
@@ -7,10 +7,16 @@ import { useStaticEditorConfig } from "./config";
 import { v4 as uuidv4 } from "uuid";
 
 function TextFieldEditor(props: { config: STextField, data: Record<string, any>, onUpdated: () => void, disabled?: boolean }) {
-    const [value, setValue] = useState(String(props.data[props.config.key]) ?? "")
+    const dataValue = props.data[props.config.key];
+    const [value, setValue] = useState(String(dataValue ?? ""))
 
     useEffect(() => {
-        if (props.data[props.config.key] != value) {
+        // the value may also be changed from outside, e.g. by a connection
+        if (String(dataValue ?? "") !== value) setValue(String(dataValue ?? ""));
+    }, [dataValue]);
+
+    useEffect(() => {
+        if (String(props.data[props.config.key] ?? "") !== value) {
             props.data[props.config.key] = value;
             props.onUpdated();
         }
@@ -82,7 +88,12 @@ function SecretFieldEditor(props: { config: SecretField, data: Record<string, an
 }
 
 function NumberFieldEditor(props: { config: NumberField, data: Record<string, any>, onUpdated: () => void, disabled?: boolean }) {
-    const [value, setValue] = useState(String(props.data[props.config.key]) ?? "")
+    const dataValue = props.data[props.config.key];
+    const [value, setValue] = useState(String(dataValue ?? ""))
+
+    useEffect(() => {
+        if (Number(value || "z") !== dataValue) setValue(String(dataValue ?? ""));
+    }, [dataValue]);
 
     const error = useMemo(() => {
         const numValue = Number(value || "z");
@@ -131,7 +142,12 @@ function NumberFieldEditor(props: { config: NumberField, data: Record<string, an
 }
 
 function SliderFieldEditor(props: { config: SliderField, data: Record<string, any>, onUpdated: () => void, disabled?: boolean }) {
-    const [value, setValue] = useState(Number(props.data[props.config.key]) ?? "")
+    const dataValue = props.data[props.config.key];
+    const [value, setValue] = useState(Number(dataValue) ?? "")
+
+    useEffect(() => {
+        if (value !== dataValue) setValue(Number(dataValue));
+    }, [dataValue]);
 
     useEffect(() => {
         const numValue = Number(value);
-- 
2.43.0


From 534159901eb50364656c08f69045787663e4d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 138/158] fix: control inputs of a switch only take numbers

---
 web-packages/std-configurators/src/entries/switch.tsx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web-packages/std-configurators/src/entries/switch.tsx b/web-packages/std-configurators/src/entries/switch.tsx
index 84706b9..f9349a8 100644
--- a/web-packages/std-configurators/src/entries/switch.tsx
+++ b/web-packages/std-configurators/src/entries/switch.tsx
@@ -103,7 +103,8 @@ export class SwitchConfigurator extends TaskCLSConfigurator {
             return [...Array(Math.floor(this.task.inputs.length / 2)).keys()].map(idx => `inputs.${idx * 2}.${subPath}`)
         });
         this.task.inputs.forEach((input, idx) => {
-            if (typeof input.topic_id === "number") {
+            // the control inputs only take numbers
+            if (typeof input.topic_id === "number" || idx % 2 === 1) {
                 setter.addValidator(`inputs.${idx}`, (_, subPath) => compareIOIgnorePaths.has(subPath));
             }
         })
-- 
2.43.0


From 3cb7170057aaa0dbed0c771240437e3e1e1783b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 139/158] fix: secrets are stored at the address configured for
 them

---
 web-packages/core/src/static-editor/editor.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web-packages/core/src/static-editor/editor.tsx b/web-packages/core/src/static-editor/editor.tsx
index e97c927..c6980fd 100644
--- a/web-packages/core/src/static-editor/editor.tsx
+++ b/web-packages/core/src/static-editor/editor.tsx
@@ -42,7 +42,7 @@ function SecretFieldEditor(props: { config: SecretField, data: Record<string, an
 
     const saveSecret = async () => {
         const id = uuidv4();
-        const result = await fetch(new URL(`./secrets/api/secret`, editorConfig.DynamicSelect.baseUrl), { 
+        const result = await fetch(new URL(`./secrets/api/secret`, editorConfig.Secret.baseUrl), { 
             method: "put",
             headers: {
                 "content-type": "application/json"
@@ -57,7 +57,7 @@ function SecretFieldEditor(props: { config: SecretField, data: Record<string, an
         }
     };
     const deleteSecret = async () => {
-        const result = await fetch(new URL(`./secrets/api/secret/${props.data[props.config.key]}`, editorConfig.DynamicSelect.baseUrl), { method: "delete" });
+        const result = await fetch(new URL(`./secrets/api/secret/${props.data[props.config.key]}`, editorConfig.Secret.baseUrl), { method: "delete" });
         if (result.ok) {
             props.data[props.config.key] = null;
             props.onUpdated();
-- 
2.43.0


From 65d0ab383beef62b5780c2889a232c1e0ad2d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 140/158] fix: sliders with a power reach exactly their range

---
 web-packages/core/src/static-editor/editor.tsx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/web-packages/core/src/static-editor/editor.tsx b/web-packages/core/src/static-editor/editor.tsx
index c6980fd..22368f6 100644
--- a/web-packages/core/src/static-editor/editor.tsx
+++ b/web-packages/core/src/static-editor/editor.tsx
@@ -157,8 +157,9 @@ function SliderFieldEditor(props: { config: SliderField, data: Record<string, an
         }
     }, [value]);
 
-    const sliderMax = Math.pow(props.config.max, props.config.pow);
-    const sliderMin = Math.pow(props.config.min, props.config.pow);
+    const sliderMax = Math.pow(props.config.max, 1 / props.config.pow);
+    const sliderMin = Math.pow(props.config.min, 1 / props.config.pow);
+    const clamp = (v: number) => Math.min(props.config.max, Math.max(props.config.min, v));
     const sliderStep = (sliderMax - sliderMin) / 1000;
 
     const _SliderFieldEditorVLD = (vldprops: SliderValueLabelProps) => {
@@ -183,7 +184,7 @@ function SliderFieldEditor(props: { config: SliderField, data: Record<string, an
                     valueLabel: _SliderFieldEditorVLD
                 }}
                 size="small"
-                onChange={(_, v) => setValue(Math.pow(Number(v), props.config.pow))}
+                onChange={(_, v) => setValue(clamp(Math.pow(Number(v), props.config.pow)))}
                 value={Math.pow(value, 1 / props.config.pow)}
                 step={sliderStep}
                 min={sliderMin}
-- 
2.43.0


From afcfad6a7778f326a491fc385b38e739bb8b0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 141/158] fix: outputs of static tasks may have no map or key

---
 streamtasks/system/configurators.py                   | 4 ++--
 web-packages/std-configurators/src/entries/static.tsx | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/configurators.py b/streamtasks/system/configurators.py
index 04977ea..1ba29b6 100644
--- a/streamtasks/system/configurators.py
+++ b/streamtasks/system/configurators.py
@@ -1,4 +1,3 @@
-from itertools import zip_longest
 import json
 from typing import Any, Literal, NotRequired
 from typing_extensions import TypedDict
@@ -35,7 +34,8 @@ def static_configurator(label: str, description: str | None = None, inputs: list
                         io_mirror: list[tuple[str, int]] | None = None, free_inputs: list[str] | None = None, io_mirror_ignore: list[str] | None = None):
   if default_config is not None:
     if config_to_output_map is not None:
-      for output, cfg_map in zip_longest(outputs, config_to_output_map[:len(outputs)], fillvalue=None):
+      for output, cfg_map in zip(outputs, config_to_output_map):
+        if cfg_map is None: continue
         output.update({ out_metadata_key: default_config[cfg_key] for cfg_key, out_metadata_key in cfg_map.items() })
     if config_to_input_map:
       for input_key, cfg_map in config_to_input_map.items():
diff --git a/web-packages/std-configurators/src/entries/static.tsx b/web-packages/std-configurators/src/entries/static.tsx
index b8c62f6..1b33b7c 100644
--- a/web-packages/std-configurators/src/entries/static.tsx
+++ b/web-packages/std-configurators/src/entries/static.tsx
@@ -185,7 +185,7 @@ export class StaticCLSConfigurator extends TaskCLSReactRendererMixin(TaskCLSConf
         }
 
         const originalOutputs = parseOutputs(this.taskHost.metadata);
-        const config2OutputMap = parseMetadataField(this.taskHost.metadata, "cfg:config2outputmap", z.array(z.record(z.string(), z.string()).optional())) ?? [];
+        const config2OutputMap = parseMetadataField(this.taskHost.metadata, "cfg:config2outputmap", z.array(z.record(z.string(), z.string()).nullish())) ?? [];
         config2OutputMap.forEach((map, outputIndex) => {
             if (map) {
                 for (const [configKey, outputMetadataKey] of Object.entries(map)) {
@@ -198,9 +198,9 @@ export class StaticCLSConfigurator extends TaskCLSReactRendererMixin(TaskCLSConf
             disableFields.forEach(field => setter.addValidator(`outputs.${outputIndex}.${field}`, () => false));
         });
 
-        const outputConfigKeys = parseMetadataField(this.taskHost.metadata, "cfg:outputkeys", z.array(z.string().optional())) ?? [];
+        const outputConfigKeys = parseMetadataField(this.taskHost.metadata, "cfg:outputkeys", z.array(z.string().nullish())) ?? [];
         outputConfigKeys.forEach((configKey, outputIndex) => {
-            if (this.outputs[outputIndex]) {
+            if (configKey && this.outputs[outputIndex]) {
                 setter.addEdge(`config.${configKey}`, `outputs.${outputIndex}.topic_id`);
             }
         });
-- 
2.43.0


From c6902977a4be3f56dad752fd8bf5bc4e8bdf3057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 142/158] fix: lists on topics are shown as lists

---
 streamtasks/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c1e7661..62e58bd 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -332,6 +332,7 @@ def make_json_serializable(v: Any):
     if math.isnan(v): return "NaN"
     else: return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
+  if isinstance(v, (list, tuple)): return [ make_json_serializable(v) for v in v ]
   try: v = dict(v)
   except (TypeError, ValueError): v = list(v)
   except: pass
-- 
2.43.0


From a26256b085cf5d8e3df420d165b3fbbf9a08a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 143/158] fix: messages with infinities reach browsers

---
 streamtasks/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 62e58bd..7d4d24d 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -330,6 +330,7 @@ def make_json_serializable(v: Any):
   if isinstance(v, (str, int, bool)) or v is None: return v
   if isinstance(v, float):
     if math.isnan(v): return "NaN"
+    elif math.isinf(v): return "Infinity" if v > 0 else "-Infinity"
     else: return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
   if isinstance(v, (list, tuple)): return [ make_json_serializable(v) for v in v ]
-- 
2.43.0


From ad02ee6920688ef8a2b5b8f0cbb18f651163a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 144/158] fix: registered paths can be removed

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 1ff52ac..b5d3552 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -238,7 +238,7 @@ class TaskWebBackend(Worker):
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
     async def _(message_data: Any):
-      data = ModelWithId.model_validate(message_data)
+      data = ModelWithStrId.model_validate(message_data)
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
 
     await server.run()
-- 
2.43.0


From b30cf26ae0ce83cdfed4cd0bb8ffb1d2c9759781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 145/158] fix: pages of hosts and tasks are those they have now

---
 streamtasks/system/task_web.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index b5d3552..5caf89c 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -203,8 +203,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
-    self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.path_registrations: list[PathRegistration] = []
     self.store = TaskWebBackendStore()
@@ -496,16 +494,12 @@ class TaskWebBackend(Worker):
           yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
-    if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-      self.task_host_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
+    return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
-    if (router := self.task_asgi_handlers.get(id, None)) is None:
-      reg: TaskInstance = await self.tm_client.get_task(id)
-      self.task_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskInstance = await self.tm_client.get_task(id)
+    return self._metadata_to_router(reg.metadata)
 
   def _metadata_to_router(self, metadata: MetadataDict) -> ASGIHandler:
     router = ASGIRouter()
-- 
2.43.0


From e7126be9ae0764c3cb795f65a08737effcf5247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 146/158] fix: a failing save keeps the stored models

---
 streamtasks/pydanticdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index c181107..a6cda07 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -16,7 +16,9 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    with open(self._filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    tmp_filename = self._filename + ".tmp"
+    with open(tmp_filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    os.replace(tmp_filename, self._filename) # what was saved before is kept, if this can not be saved
 
   def load(self):
     with open(self._filename, "rb") as fd: self._entries = self._list_model.validate_json(fd.read())
-- 
2.43.0


From beed439bb4ac661d68154f55a443a1375705d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 147/158] fix: one unusable index file does not hide the next

---
 streamtasks/asgiserver.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 78f6deb..cfe9287 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -535,14 +535,18 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
   directory_path = pathlib.Path(path).resolve(strict=True)
   if not directory_path.is_dir(): return static_file_handler(path, response_buffer_size=response_buffer_size)
 
-  def is_servable(path: pathlib.Path): return directory_path in path.parents and path.is_file()
+  def find_servable(path: pathlib.Path) -> pathlib.Path | None:
+    try:
+      path = path.resolve()
+      return path if directory_path in path.parents and path.is_file() else None
+    except (OSError, ValueError, RuntimeError): return None # no file can have this path
 
   def find_file(path: str) -> pathlib.Path | None:
     try:
       request_path = directory_path.joinpath(path.lstrip("/\\")).resolve()
       if directory_path not in request_path.parents and directory_path != request_path: return None
-      if request_path.is_dir(): return next((p for p in (request_path.joinpath(idx_file).resolve() for idx_file in index_files) if is_servable(p)), None)
-      return request_path if is_servable(request_path) else None
+      if request_path.is_dir(): return next((p for p in (find_servable(request_path.joinpath(idx_file)) for idx_file in index_files) if p is not None), None)
+      return find_servable(request_path)
     except (OSError, ValueError, RuntimeError): return None # no file can have this path
 
   @http_context_handler
-- 
2.43.0


From 237afb52e21d4a9f8823bb49a274333dd1c9208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 148/158] fix: a dashboard asked for by id is returned

---
 web-packages/app/src/state/dashboard-store.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web-packages/app/src/state/dashboard-store.ts b/web-packages/app/src/state/dashboard-store.ts
index 969c5e4..f699388 100644
--- a/web-packages/app/src/state/dashboard-store.ts
+++ b/web-packages/app/src/state/dashboard-store.ts
@@ -21,7 +21,9 @@ export class DashboardStore {
     }
 
     public async loadOne(id: string) {
-        this.putDashboards(DashboardModel.parse(await fetch(`./api/dashboard/${id}`).then(res => res.json())))
+        const dashboard = DashboardModel.parse(await fetch(`./api/dashboard/${id}`).then(res => res.json()));
+        this.putDashboards(dashboard);
+        return dashboard;
     }
 
     public async get(id: string) {
-- 
2.43.0


From e12120d999e4dbc3dacebcf6539f6ced18d638d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 149/158] fix: tasks can be edited again once their host is
 back

---
 web-packages/app/src/state/task-manager.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/web-packages/app/src/state/task-manager.ts b/web-packages/app/src/state/task-manager.ts
index c95a3d3..68d4bd3 100644
--- a/web-packages/app/src/state/task-manager.ts
+++ b/web-packages/app/src/state/task-manager.ts
@@ -91,7 +91,9 @@ export class TaskManager {
     }
 
     private async getConfigurator(taskHost: TaskHost): Promise<TaskConfigurator> {
-        if (!this.configurators.has(taskHost.id)) {
+        // the configurator of a host may change, for example when the host was not found before
+        const configuratorKey = JSON.stringify([taskHost.id, taskHost.metadata["js:configurator"]]);
+        if (!this.configurators.has(configuratorKey)) {
             let importUrl: string;
             if ("js:configurator" in taskHost.metadata) {
                 const configuratorJs = taskHost.metadata["js:configurator"];
@@ -121,7 +123,7 @@ export class TaskManager {
                     throw new Error("Configurator format is wrong!");
                 }
 
-                this.configurators.set(taskHost.id, configurator);
+                this.configurators.set(configuratorKey, configurator);
                 return configurator;
             }
             catch {
@@ -132,7 +134,7 @@ export class TaskManager {
             }
         }
         else {
-            return this.configurators.get(taskHost.id)!;
+            return this.configurators.get(configuratorKey)!;
         }
     }
 
-- 
2.43.0


From c38a79cf4ee137bee64dcc786d5413b6753a75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 150/158] fix: edits of the settings of a track are saved

---
 web-packages/app/src/state/task-store.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/web-packages/app/src/state/task-store.ts b/web-packages/app/src/state/task-store.ts
index 30ebe67..0b760ef 100644
--- a/web-packages/app/src/state/task-store.ts
+++ b/web-packages/app/src/state/task-store.ts
@@ -1,5 +1,6 @@
 import { z } from "zod";
 import deepEqual from "deep-equal";
+import cloneDeep from "clone-deep";
 import { StoredTask, FullTaskModel, StoredTaskModel } from "@streamtasks/core";
 
 export class TaskStore {
@@ -13,8 +14,8 @@ export class TaskStore {
     }
 
     public async putTask(task: StoredTask, deploymentId: string, force: boolean = false) {
-        const storedTask = StoredTaskModel.parse(task);
-        if (!force && deepEqual(storedTask, this._storedTasks.get(task.id))) return;
+        const storedTask = cloneDeep(StoredTaskModel.parse(task));
+        if (!force && deepEqual(storedTask, this._storedTasks.get(task.id), { strict: true })) return;
         const result = await fetch(`./api/task`, {
             method: "put",
             headers: {
@@ -46,7 +47,7 @@ export class TaskStore {
     private putStoredTasks(...tasks: StoredTask[]) {
         for (const task of tasks) {
             try {
-                this._storedTasks.set(task.id, StoredTaskModel.parse(task))
+                this._storedTasks.set(task.id, cloneDeep(StoredTaskModel.parse(task)))
             }
             catch {}
         }
-- 
2.43.0


From ca114f23144f965912557dd5ce2aad2a84f8474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 151/158] fix: the saves of a task do not overtake each other

---
 web-packages/app/src/state/task-store.ts | 29 +++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/web-packages/app/src/state/task-store.ts b/web-packages/app/src/state/task-store.ts
index 0b760ef..b439aa9 100644
--- a/web-packages/app/src/state/task-store.ts
+++ b/web-packages/app/src/state/task-store.ts
@@ -5,17 +5,40 @@ import { StoredTask, FullTaskModel, StoredTaskModel } from "@streamtasks/core";
 
 export class TaskStore {
     private _storedTasks = new Map<string, StoredTask>();
+    private _requests = new Map<string, Promise<unknown>>();
 
     public async loadTasksInDeployment(deploymentId: string) {
+        await Promise.allSettled(this._requests.values());
         const result = await fetch(`./api/deployment/${deploymentId}/tasks`).then(res => res.json());
         const tasks = z.array(FullTaskModel).parse(result);
         this.putStoredTasks(...tasks);
         return tasks;
     }
 
-    public async putTask(task: StoredTask, deploymentId: string, force: boolean = false) {
+    public putTask(task: StoredTask, deploymentId: string, force: boolean = false) {
         const storedTask = cloneDeep(StoredTaskModel.parse(task));
-        if (!force && deepEqual(storedTask, this._storedTasks.get(task.id), { strict: true })) return;
+        return this.enqueue(task.id, () => this.requestPut(storedTask, deploymentId, force));
+    }
+
+    public deleteTask(taskId: string) {
+        return this.enqueue(taskId, () => this.requestDelete(taskId));
+    }
+
+    private enqueue<T>(taskId: string, request: () => Promise<T>): Promise<T> {
+        // requests for the same task must not overtake each other
+        const result = (this._requests.get(taskId) ?? Promise.resolve()).then(request, request);
+        this._requests.set(taskId, result);
+        const done = () => {
+            if (this._requests.get(taskId) === result) {
+                this._requests.delete(taskId);
+            }
+        };
+        result.then(done, done);
+        return result;
+    }
+
+    private async requestPut(storedTask: StoredTask, deploymentId: string, force: boolean) {
+        if (!force && deepEqual(storedTask, this._storedTasks.get(storedTask.id), { strict: true })) return;
         const result = await fetch(`./api/task`, {
             method: "put",
             headers: {
@@ -36,7 +59,7 @@ export class TaskStore {
         return newTask;
     }
 
-    public async deleteTask(taskId: string) {
+    private async requestDelete(taskId: string) {
         const result = await fetch(`./api/task/${taskId}`, { method: "delete" });
         if (!result.ok) {
             throw new Error("Failed to delete!")
-- 
2.43.0


From ff183176bdb725d36f825a8616641cd453d0e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 152/158] fix: a deleted task is not saved again

---
 .../app/src/state/deployment-manager.ts       | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/web-packages/app/src/state/deployment-manager.ts b/web-packages/app/src/state/deployment-manager.ts
index 6f72be4..ff359c7 100644
--- a/web-packages/app/src/state/deployment-manager.ts
+++ b/web-packages/app/src/state/deployment-manager.ts
@@ -66,6 +66,7 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
 
     private taskInstanceUpdater?: DeploymentTaskInstanceUpdater;
     private disposers: (() => void)[] = [];
+    private untrackers = new Map<string, () => void>();
 
     constructor(deploymentId: string, rootStore: RootStore) {
         super();
@@ -143,7 +144,14 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
 
     public async deleteTask(task: ManagedTask) {
         if (this.running) throw new Error("Deployment is running!");
-        await this.rootStore.task.deleteTask(task.id);
+        this.untrackTask(task.id); // a save must not create the task again
+        try {
+            await this.rootStore.task.deleteTask(task.id);
+        }
+        catch (e) {
+            this.trackTask(task);
+            throw e;
+        }
         task.removeAllListeners("updated");
         this.tasks.delete(task.id);
     }
@@ -152,6 +160,8 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
         this.removeAllListeners();
         this.disposers.forEach(d => d());
         this.disposers = [];
+        this.untrackers.forEach(untrack => untrack());
+        this.untrackers.clear();
         this.taskInstanceUpdater?.destroy();
     }
 
@@ -161,8 +171,16 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
             this.emit("taskUpdated", task);
             saveFn();
         };
-        task.on("updated", saveFn, 1000);
-        this.disposers.push(() => task.off("updated", updatedFn));
+        task.on("updated", updatedFn);
+        this.untrackers.set(task.id, () => {
+            task.off("updated", updatedFn);
+            saveFn.cancel();
+        });
+    }
+
+    private untrackTask(taskId: string) {
+        this.untrackers.get(taskId)?.();
+        this.untrackers.delete(taskId);
     }
 }
 
-- 
2.43.0


From 079de7f25000cbd47e387c0df962246c589262c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 153/158] fix: pending edits are saved before a start and when
 leaving a deployment

---
 web-packages/app/src/state/deployment-manager.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web-packages/app/src/state/deployment-manager.ts b/web-packages/app/src/state/deployment-manager.ts
index ff359c7..a27612c 100644
--- a/web-packages/app/src/state/deployment-manager.ts
+++ b/web-packages/app/src/state/deployment-manager.ts
@@ -92,6 +92,7 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
         if (this.running) {
             throw new Error("Can not start a deployment that is running.");
         }
+        await this.saveTasks();
         await this.rootStore.deployment.schedule(this.id);
         if (this.running) {
             await this.loadTasks();
@@ -157,6 +158,9 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
     }
 
     public destroy() {
+        if (!this.running) {
+            this.saveTasks().catch(() => {});
+        }
         this.removeAllListeners();
         this.disposers.forEach(d => d());
         this.disposers = [];
@@ -165,6 +169,10 @@ export class DeploymentManager extends EventEmitter<{ "taskUpdated": [ManagedTas
         this.taskInstanceUpdater?.destroy();
     }
 
+    private async saveTasks() {
+        await Promise.all(Array.from(this.tasks.values()).map(task => this.rootStore.task.putTask(task.task, this.id)));
+    }
+
     private trackTask(task: ManagedTask) {
         const saveFn = _.throttle(async () => await this.rootStore.task.putTask(task.task, this.id), 1000);
         const updatedFn = () => {
-- 
2.43.0


From 9fab5dc690b54683252d5c306cca423a39bb511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 154/158] fix: a request is answered only once

---
 streamtasks/client/fetch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 764e59b..9d6cf95 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -112,7 +112,8 @@ class FetchServer(Receiver[tuple[str, FetchRequest]]):
             await self._descriptor_mapping[descriptor](fr)
             if not fr.response_sent: await fr.respond(None)
           except asyncio.CancelledError: raise
-          except ValidationError as e: await fr.respond_error(new_fetch_body_bad_request(str(e)))
+          except ValidationError as e:
+            if not fr.response_sent: await fr.respond_error(new_fetch_body_bad_request(str(e)))
           except BaseException as e:
             if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))
             logging.debug(e, descriptor)
-- 
2.43.0


From 2b9ac9dc53d74afa15dded671aa82eda2e7e1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 155/158] fix: a wheel step can not zoom to nothing

---
 web-packages/app/src/lib/html-viewport.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web-packages/app/src/lib/html-viewport.ts b/web-packages/app/src/lib/html-viewport.ts
index f305e70..866e842 100644
--- a/web-packages/app/src/lib/html-viewport.ts
+++ b/web-packages/app/src/lib/html-viewport.ts
@@ -113,7 +113,7 @@ export class HTMLViewport {
         this._container.addEventListener("wheel", e => {
             const containerRect = this._container.getBoundingClientRect();
 
-            this.changeZoom(1 - Math.max(-0.9, e.deltaY * 0.001), { x: e.clientX - containerRect.x, y: e.clientY - containerRect.y })
+            this.changeZoom(1 - Math.min(0.9, Math.max(-0.9, e.deltaY * 0.001)), { x: e.clientX - containerRect.x, y: e.clientY - containerRect.y })
         });
         this._container.addEventListener("touchstart", e => {
             if (e.touches.length == 2) allowMove = false;
-- 
2.43.0


From 7481735724adc692516ca0e2feb14ee9080a7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 156/158] fix: all inputs connected to one output are linked
 when a node is added

---
 web-packages/app/src/lib/node-editor/renderer.ts | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/web-packages/app/src/lib/node-editor/renderer.ts b/web-packages/app/src/lib/node-editor/renderer.ts
index 44eec1d..a9eb61d 100644
--- a/web-packages/app/src/lib/node-editor/renderer.ts
+++ b/web-packages/app/src/lib/node-editor/renderer.ts
@@ -581,19 +581,13 @@ export class NodeEditorRenderer extends EventEmitter<{
         return newLinks;
     }
     private createLinksFromInputConnections(nodeId: string, inputConnections: InputConnection[]) {
-        const inputConnectionIdMap = new Map<number, string>();
-        for (const input of inputConnections) {
-            if (input.streamId) {
-                inputConnectionIdMap.set(input.streamId, input.key);
-            }
-        }
-
         const newLinks: ConnectionLink[] = [];
         for (const nodeRenderer of this.nodeRenderers.values()) {
             for (const output of nodeRenderer.outputs) {
-                if (inputConnectionIdMap.has(output.streamId)) {
+                for (const input of inputConnections) {
+                    if (!input.streamId || input.streamId !== output.streamId) continue;
                     newLinks.push({
-                        inputKey: inputConnectionIdMap.get(output.streamId)!,
+                        inputKey: input.key,
                         inputNodeId: nodeId,
                         outputId: output.streamId,
                         outputNodeId: nodeRenderer.id
-- 
2.43.0


From 75ee1a15ad5826544c78465342ff73b1ec8a049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 157/158] fix: a refused disconnection keeps its line

---
 web-packages/app/src/lib/node-editor/renderer.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web-packages/app/src/lib/node-editor/renderer.ts b/web-packages/app/src/lib/node-editor/renderer.ts
index a9eb61d..c2b127d 100644
--- a/web-packages/app/src/lib/node-editor/renderer.ts
+++ b/web-packages/app/src/lib/node-editor/renderer.ts
@@ -482,7 +482,7 @@ export class NodeEditorRenderer extends EventEmitter<{
 
         const selectedInputConnection = this.selectedInputConnection;
         if (selectedInputConnection) {
-            if (await this.connectConnectionToInput(this.selectedNodeId!, selectedInputConnection.key), undefined, true) {
+            if (await this.connectConnectionToInput(this.selectedNodeId!, selectedInputConnection.key, undefined, true)) {
                 this.removeLinks(this.links.values.filter(c => c.inputNodeId === this.selectedNodeId && c.inputKey === connectionId));
                 this.emit("updated", this.selectedNodeId!);
             }
-- 
2.43.0


From 7dd1c7db3f4164a3a200267e3cbcaeb80aa192a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 158/158] fix: pressing an input disconnects that input

---
 web-packages/app/src/lib/node-editor/renderer.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/web-packages/app/src/lib/node-editor/renderer.ts b/web-packages/app/src/lib/node-editor/renderer.ts
index c2b127d..3499f9e 100644
--- a/web-packages/app/src/lib/node-editor/renderer.ts
+++ b/web-packages/app/src/lib/node-editor/renderer.ts
@@ -287,7 +287,7 @@ export class NodeRenderer {
         element.style.borderWidth = "0px";
 
         element.addEventListener('pointerdown', async () => {
-            await this.editor?.onSelectStartConnection(connection.id)
+            await this.editor?.onSelectStartConnection(this.id, connection.id)
         });
         element.addEventListener('pointerup', async () => await this.editor?.onSelectEndConnection(this.id, connection.id));
         return element;
@@ -476,15 +476,16 @@ export class NodeEditorRenderer extends EventEmitter<{
         this.links = new ConnectionLinkCollection();
     }
 
-    public async onSelectStartConnection(connectionId: string | number) {
+    public async onSelectStartConnection(nodeId: string, connectionId: string | number) {
         this.selectedConnectionId = connectionId;
         if (this._readOnly) return;
 
-        const selectedInputConnection = this.selectedInputConnection;
-        if (selectedInputConnection) {
-            if (await this.connectConnectionToInput(this.selectedNodeId!, selectedInputConnection.key, undefined, true)) {
-                this.removeLinks(this.links.values.filter(c => c.inputNodeId === this.selectedNodeId && c.inputKey === connectionId));
-                this.emit("updated", this.selectedNodeId!);
+        // the node is selected only once the event has reached it
+        const inputConnection = this.nodeRenderers.get(nodeId)?.inputs.find(c => c.key === connectionId);
+        if (inputConnection) {
+            if (await this.connectConnectionToInput(nodeId, inputConnection.key, undefined, true)) {
+                this.removeLinks(this.links.values.filter(c => c.inputNodeId === nodeId && c.inputKey === connectionId));
+                this.emit("updated", nodeId);
             }
         }
     }
-- 
2.43.0

