From d6daa0344992c363d9208ed3fd0cc08a2df0e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 001/132] fix: keep write access of RW/WO fields mapped with WO
 rights

---
 src/uvm/reg/uvm_reg_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..fa12d85 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
             if field_access == 'RW' or field_access == 'WO':
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
-- 
2.43.0


From ece417aac5d469acb11d5e24146f9dd8f3748c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 002/132] fix: predicting a field whose byte lane is disabled
 leaves it unchanged

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index fa12d85..b9f1a2b 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1266,7 +1266,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
-- 
2.43.0


From 87ded3484c8e71d8cd37430e59a6675c453d841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 003/132] fix: do not compare write-only fields when checking a
 register against its mirror

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..e738968 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1351,7 +1351,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1367,7 +1367,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
-- 
2.43.0


From d2518ed700a195d16ec6314d4d81d404312161ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 004/132] fix: mailbox num() returns the number of items

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..ef519e0 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -152,4 +152,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
-- 
2.43.0


From a4f69726cce255b2d425151871bfa743043b168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 005/132] fix: a blocked peek keeps waiting when another
 process takes the item

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index ef519e0..5a9f616 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,7 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
-- 
2.43.0


From ed0bc8b9c265ce1a9dfb6da2b27f0dd673a9d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 006/132] fix: fifo peek returns the item once

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..1ff782c 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,7 +122,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
+        res = await self.m.peek()
         if t is not None:
             t.append(res)
         return res
-- 
2.43.0


From 772101bd74b49a0e97fb0f79e40116709bf05919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 007/132] fix: fifo try_get and flush broadcast the item that
 was removed

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 1ff782c..0e6c549 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -130,7 +130,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From 55539c8047a0478c81bc0f10cea82474e6096b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 008/132] fix: copying a queue copies its items instead of
 sharing them

---
 src/uvm/base/uvm_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1be026e..0a59632 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -250,7 +250,7 @@ class UVMQueue(UVMObject, Generic[T]):
         if rhs is None:
             return
         UVMObject.do_copy(self, rhs)
-        self.queue = rhs.queue
+        self.queue = list(rhs.queue)
 
     def convert2string(self) -> str:
         return str(self.queue)
-- 
2.43.0


From 0501cb75e95cc8f5703cd2afb7b6ac1024a956d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 009/132] fix: deleting a key from an object pool deletes it

---
 src/uvm/base/uvm_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..137371f 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -310,7 +310,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        super().delete(key)
     #  endfunction
 
     def do_print(self, printer) -> None:
-- 
2.43.0


From 406c68870c67d055a370816babf61e573565008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 010/132] fix: barriers can be constructed with a name

---
 src/uvm/base/uvm_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..d012ea9 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
-- 
2.43.0


From 1ab876ad48b57c3c7638f98961e9f0160e22db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 011/132] fix: the last process to reach a barrier releases the
 others

---
 src/uvm/base/uvm_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index d012ea9..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
-- 
2.43.0


From 84dc85773be4441df93baa64ea2a2558daf06e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 012/132] fix: the blocking transport interface has a mask bit
 of its own

---
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
-- 
2.43.0


From 7124e21ea68150421aad23fac3e297b53edc0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 013/132] fix: resetting a report handler clears the settings
 made on it

---
 src/uvm/base/uvm_report_handler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/uvm/base/uvm_report_handler.py b/src/uvm/base/uvm_report_handler.py
index 8cf045b..80bda4d 100644
--- a/src/uvm/base/uvm_report_handler.py
+++ b/src/uvm/base/uvm_report_handler.py
@@ -361,6 +361,17 @@ class UVMReportHandler(UVMObject):
 
           Internal method for initializing report handler.
         """
+        self.id_verbosities = UVMPool()
+        self.severity_id_verbosities = {}
+        self.id_actions = UVMPool()
+        self.severity_actions = UVMPool()
+        self.severity_id_actions = {}
+        self.sev_overrides = UVMPool()
+        self.sev_id_overrides = {}
+        self.id_file_handles = UVMPool()
+        self.severity_file_handles = {}
+        self.severity_id_file_handles = {}
+
         self.set_default_file(0)
         self.m_max_verbosity_level = UVM_MEDIUM
         self.set_severity_action(UVM_INFO, UVM_DISPLAY)
-- 
2.43.0


From 188dc8d62e7de27b8ffaafe1f8e919e2342a6026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 014/132] fix: the counted severities and ids can be listed
 more than once

---
 src/uvm/base/uvm_report_server.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..1cc5947 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -344,12 +344,10 @@ class UVMReportServer(UVMObject):
         return self.m_message_db
 
     def get_severity_set(self, q: List[Any]) -> None:
-        while self.m_severity_count.has_next():
-            q.append(self.m_severity_count.next())
+        q.extend(self.m_severity_count.key_list())
 
     def get_id_set(self, q: List[Any]) -> None:
-        while self.m_id_count.has_next():
-            q.append(self.m_id_count.next())
+        q.extend(self.m_id_count.key_list())
 
     def f_display(self, file, _str) -> None:
         """
-- 
2.43.0


From 04f9bc0c34115a778262c804c13ab6ec6ca81815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 015/132] fix: show_verbosity composes a report instead of
 raising TypeError

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 1cc5947..60bea25 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -527,7 +527,7 @@ class UVMReportServer(UVMObject):
 
         if self.show_verbosity is True:
             verb = report_message.get_verbosity()
-            verbosity_str = "(" + verb + ")"
+            verbosity_str = "(" + str(verb) + ")"
 
         if self.show_terminator is True:
             terminator_str = " -" + sev_string
-- 
2.43.0


From 2952e0ef147f48f9fc409ace7142ad1f21a62398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 016/132] fix: recording the first report of an object does not
 raise KeyError

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 60bea25..2d51286 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -442,7 +442,7 @@ class UVMReportServer(UVMObject):
                     # Open the stream.    Name=report object name, scope=report handler name, type=MESSAGES
                     stream = db.open_stream(ro.get_name(), rh.get_name(), "MESSAGES")
                     # Save off the openned stream
-                    self.m_streams[ro.get_name()][rh.get_name()] = stream
+                    self.m_streams.setdefault(ro.get_name(), {})[rh.get_name()] = stream
             if stream is not None:
                 recorder = stream.open_recorder(report_message.get_name(), None,report_message.get_type_name())
                 if recorder is not None:
-- 
2.43.0


From 454167e53161ec85ec23e8bc0334383484850cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 017/132] fix: an action set by a report catcher is not
 overridden by its severity change

---
 src/uvm/base/uvm_report_catcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..f0121f6 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -290,7 +290,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
-- 
2.43.0


From a7745a9e07a349d1b212f31b0bc59b85b5619ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 018/132] fix: copying a report message copies its elements

---
 src/uvm/base/uvm_report_message.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_report_message.py b/src/uvm/base/uvm_report_message.py
index 031d6ae..d59613b 100644
--- a/src/uvm/base/uvm_report_message.py
+++ b/src/uvm/base/uvm_report_message.py
@@ -80,10 +80,14 @@ class UVMReportMessageElementBase(UVMObject):
         pass
 
     def do_copy(self, rhs):
-        pass
+        self._name = rhs._name
+        self._val = rhs._val
+        self._action = rhs._action
 
     def do_clone(self):
-        pass
+        elem = type(self)()
+        elem.copy(self)
+        return elem
 
 #------------------------------------------------------------------------------
 #
-- 
2.43.0


From cb13d9558200c53c93a5c81c5d3a122297c4f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 019/132] fix: report catchers can add elements to a report

---
 src/uvm/base/uvm_report_catcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index f0121f6..b059dfa 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -309,7 +309,7 @@ class UVMReportCatcher(UVMCallback):
     #// added element.
     #//
     def add_int(self, name, value, size, radix, action=(UVM_LOG | UVM_RM_RECORD)):
-        self.m_modified_report_message.add_int(name, value, size, radix, action)
+        self.m_modified_report_message.add(name, value, action)
 
 
     #// Function: add_string
@@ -319,7 +319,7 @@ class UVMReportCatcher(UVMCallback):
     #// added element.
     #//
     def add_string(self, name, value, action=(UVM_LOG | UVM_RM_RECORD)):
-        self.m_modified_report_message.add_string(name, value, action)
+        self.m_modified_report_message.add(name, value, action)
 
 
     #// Function: add_object
@@ -329,7 +329,7 @@ class UVMReportCatcher(UVMCallback):
     #// added element.
     #//
     def add_object(self, name, obj, action=(UVM_LOG | UVM_RM_RECORD)):
-        self.m_modified_report_message.add_object(name, obj, action)
+        self.m_modified_report_message.add(name, obj, action)
 
 
     #// Group: Debug
-- 
2.43.0


From 2f2b4879c3fcb5d951ee6a4558ed24f23d5ca94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 020/132] fix: a typewide callback runs once on an object that
 has callbacks of its own

---
 src/uvm/base/uvm_callback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..a64a9f8 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -765,7 +765,8 @@ class UVMCallbacks(UVMTypedCallbacks):
 
                 # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
                 for i in range(len(cls.m_t_inst.m_tw_cb_q)):
-                    q.append(cls.m_t_inst.m_tw_cb_q[i])
+                    if cls.m_cb_find(q, cls.m_t_inst.m_tw_cb_q[i]) == -1:
+                        q.append(cls.m_t_inst.m_tw_cb_q[i])
 
 
             #check if already exists in the queue
-- 
2.43.0


From 100502b29b65e55120876801eb55f1ef83bf5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 021/132] fix: typewide callbacks also reach objects that have
 callbacks of their own

---
 src/uvm/base/uvm_callback.py | 47 ++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index a64a9f8..84d4a74 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -112,9 +112,9 @@ class UVMCallbacksBase(UVMObject):
 
     @classmethod
     def m_initialize(cls):
-        if cls.m_b_inst is None:
-            cls.m_b_inst = UVMCallbacksBase("callbacks_base")
-            cls.m_pool = UVMPool()
+        if UVMCallbacksBase.m_b_inst is None:
+            UVMCallbacksBase.m_b_inst = UVMCallbacksBase("callbacks_base")
+            UVMCallbacksBase.m_pool = UVMPool()
         return UVMCallbacksBase.m_b_inst
 
     def m_am_i_a(self, obj):
@@ -333,29 +333,22 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            #if($cast(me,obj)):
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
@@ -599,6 +592,8 @@ class UVMCallbacks(UVMTypedCallbacks):
             cls.m_typeid     = UVMTypeID.get()
 
             cls.m_inst = UVMCallbacks()
+            # There is one typewide queue, shared with the typed callbacks
+            cls.m_inst.m_tw_cb_q = UVMTypedCallbacks.m_t_inst.m_tw_cb_q
 
             if cb_base_type == cls.m_cb_typeid:
                 #cast(m_base_inst, m_inst)
-- 
2.43.0


From 219d66bc44a206ae80ed65f97cc1854a990e1e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 022/132] fix: callback iterators skip disabled callbacks also
 when no type is given

---
 src/uvm/base/uvm_callback.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index 84d4a74..2036394 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -976,7 +976,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
         #  endfunction
@@ -1016,7 +1016,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
 
@@ -1056,7 +1056,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
         #  endfunction
@@ -1100,7 +1100,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
 
-- 
2.43.0


From dabe439b9e06f7df0cdde9456186bda5f625a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 023/132] fix: report catchers and register callbacks are not
 mixed up when iterating over either

---
 src/uvm/base/uvm_report_catcher.py | 9 ++++++++-
 src/uvm/reg/uvm_reg_cbs.py         | 9 ++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index b059dfa..7033426 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -51,8 +51,15 @@ class UVMReportCb(UVMCallbacks):
     def get_first(cls, itr, obj):
         return super().get_first(itr, obj, UVMReportCatcher)
 
+    @classmethod
+    def get_next(cls, itr, obj):
+        return super().get_next(itr, obj, UVMReportCatcher)
+
+
+class UVMReportCbIter(UVMCallbackIter):
 
-UVMReportCbIter = UVMCallbackIter
+    def __init__(self, obj):
+        super().__init__(obj, UVMReportCatcher)
 
 
 
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..d527832 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -320,7 +320,10 @@ UVMRegCb = UVMCallbacks
 #// rather than the more verbose parameterized class
 #//
 #typedef uvm_callback_iter#(uvm_reg, uvm_reg_cbs) uvm_reg_cb_iter
-UVMRegCbIter = UVMCallbackIter
+class UVMRegCbIter(UVMCallbackIter):
+
+    def __init__(self, obj):
+        super().__init__(obj, UVMRegCbs)
 
 
 
@@ -361,7 +364,7 @@ UVMRegCbIter = UVMCallbackIter
 #// rather than the more verbose parameterized class
 #//
 #typedef uvm_callback_iter#(uvm_mem, uvm_reg_cbs) uvm_mem_cb_iter
-UVMMemCbIter = UVMCallbackIter
+UVMMemCbIter = UVMRegCbIter
 
 #
 #// Type: uvm_reg_field_cb
@@ -383,7 +386,7 @@ UVMRegFieldCb = UVMCallbacks
 #// rather than the more verbose parameterized class
 #//
 #typedef uvm_callback_iter#(uvm_reg_field, uvm_reg_cbs) uvm_reg_field_cb_iter
-UVMRegFieldCbIter = UVMCallbackIter
+UVMRegFieldCbIter = UVMRegCbIter
 
 
 #//-----------------------------
-- 
2.43.0


From c26b1615629b712763587c8e424fd4e6f161c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 024/132] fix: uvm_do_callbacks_exit_on returns the result of
 the callbacks

---
 src/uvm/macros/uvm_callback_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From 210bb9a8ebe36c6139f26a343a0a603b95a11f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 025/132] fix: the addresses of every bus word are computed
 once through three levels of maps

---
 src/uvm/reg/uvm_reg_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..d987abd 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1156,7 +1156,6 @@ class UVMRegMap(UVMObject):
             for i in range(len(addr)):
                 addr[i] += self.m_base_addr
         else:
-            sys_addr = []
             base_addr = 0
             w = 0
             k = 0
@@ -1170,6 +1169,7 @@ class UVMRegMap(UVMObject):
             base_addr = up_map.get_submap_offset(self)
             for i in range(len(local_addr)):
                 n = len(addr)
+                sys_addr = []
                 w = up_map.get_physical_addresses(base_addr + local_addr[i] * k,
                         0, bus_width, sys_addr)
 
-- 
2.43.0


From f23fffba5861608e9a7bdbb6efaafc439b5f349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 026/132] fix: changing the offset of a register removes it
 from its former addresses

---
 src/uvm/reg/uvm_reg_map.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index d987abd..e6610fe 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -669,10 +669,11 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
+            if not info.unmapped:
                 for addr in info.addr:
                     if addr not in top_map.m_regs_by_offset_wo:
-                        del top_map.m_regs_by_offset[addr]
+                        if top_map.m_regs_by_offset.get(addr) is rg:
+                            del top_map.m_regs_by_offset[addr]
                     else:
                         if top_map.m_regs_by_offset[addr] == rg:
                             top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
@@ -730,7 +731,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
-- 
2.43.0


From 5ca47fd1a335797211195cc864d36c950a3450f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 027/132] fix: a memory with a single word can be mapped

---
 src/uvm/reg/uvm_reg_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index e6610fe..34c9c40 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -189,7 +189,8 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                if mem.get_size() > 1:
+                    stride = (max2 - min2) // (mem.get_size() - 1)
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
-- 
2.43.0


From 739bb7005aa39ada843f432813387dc030f39380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 028/132] fix: overlaps with a memory are reported as a warning
 instead of an exception

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 34c9c40..164f837 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -152,7 +152,7 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
                                 "maps to same address as memory '" +
@@ -205,7 +205,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]",min1,max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
-- 
2.43.0


From bb08ebd7a82ab72203d58a60a742d5c0334f28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 029/132] fix: a map of an unrelated block is rejected as a
 submap with an error report

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 164f837..e61b569 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -489,8 +489,8 @@ class UVMRegMap(UVMObject):
         if child_blk is None:
             uvm_error("RegModel", ("Submap '" + child_map.get_full_name()
                 + "' may not be added to this address map, '"
-                + self.get_full_name(),"', as the submap's parent block, '"
-                + child_blk.get_full_name()
+                + self.get_full_name() + "', as the submap's parent block, '"
+                + child_map.get_parent().get_full_name()
                 + "', is neither this map's parent block nor a descendent of this map's parent block, '"
                 + self.m_parent.get_full_name() + "'"))
             return
-- 
2.43.0


From 45d6928ebdf882db48ee84c3f60943272ab89911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 030/132] fix: the maps a memory belongs to are found through
 the map hierarchy

---
 src/uvm/reg/uvm_mem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..ede2ad1 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -293,7 +293,7 @@ class UVMMem(UVMObject):
         if _map in self.m_maps:
             return _map
 
-        for l in self.m_maps:
+        for l in self.m_maps.key_list():
             local_map = l  # uvm_reg_map
             parent_map = local_map.get_parent_map()
 
@@ -332,7 +332,7 @@ class UVMMem(UVMObject):
             get_default_map = self.m_maps.first()
 
         # try to choose one based on default_map in parent blocks.
-        for l in self.m_maps:
+        for l in self.m_maps.key_list():
             _map = l  # uvm_reg_map
             blk = _map.get_parent()  # uvm_reg_block
             default_map = blk.get_default_map()  # uvm_reg_map
-- 
2.43.0


From d1d14c57ca63bae8a9f9d8e380c71206a51d537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 031/132] fix: the callbacks of a register are called when it
 is written, not again those of its last field

---
 src/uvm/reg/uvm_reg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index e738968..d280a38 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1395,7 +1395,7 @@ class UVMReg(UVMObject):
         """
         await uvm_zero_delay()
         # TODO finish this
-        cbs = UVMRegCbIter(self)  # uvm_reg_cb_iter  cbs = new(this)
+        reg_cbs = UVMRegCbIter(self)  # uvm_reg_cb_iter  cbs = new(this)
         arr_map_info = []  # uvm_reg_map_info
         value = 0  # uvm_reg_data_t   value
 
@@ -1442,10 +1442,10 @@ class UVMReg(UVMObject):
 
         # PRE-WRITE CBS - REG
         await self.pre_write(rw)
-        cb = cbs.first()
+        cb = reg_cbs.first()
         while cb is not None:
             await cb.pre_write(rw)
-            cb = cbs.next()
+            cb = reg_cbs.next()
 
         if rw.status != UVM_IS_OK:
             self.m_write_in_progress = False
@@ -1519,10 +1519,10 @@ class UVMReg(UVMObject):
         value = rw.value[0]
 
         # POST-WRITE CBS - REG
-        cb = cbs.first()
+        cb = reg_cbs.first()
         while cb is not None:
             await cb.post_write(rw)
-            cb = cbs.next()
+            cb = reg_cbs.next()
         await self.post_write(rw)
 
         # POST-WRITE CBS - FIELDS
-- 
2.43.0


From 2d085b81f757e1414a5f3b1db267c5e0a177e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 032/132] fix: callbacks of registers, fields and memories are
 awaited, as they are tasks

---
 src/uvm/reg/uvm_mem.py     | 2 +-
 src/uvm/reg/uvm_reg.py     | 8 ++++----
 src/uvm/reg/uvm_reg_cbs.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index ede2ad1..dc1491f 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1086,7 +1086,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index d280a38..e1d685b 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1535,7 +1535,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_write(rw)
+                await cb.post_write(rw)
                 cb = cbs.next()
             await f.post_write(rw)
 
@@ -1620,7 +1620,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1727,7 +1727,7 @@ class UVMReg(UVMObject):
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
-            cb.post_read(rw)
+            await cb.post_read(rw)
             cb = cbs.next()
         await self.post_read(rw)
 
@@ -1741,7 +1741,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while (cb is not None):
-                cb.post_read(rw)
+                await cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index d527832..abeeb4b 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -193,7 +193,7 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    def post_read(self, rw):
+    async def post_read(self, rw):
         """
            Task: post_read
 
-- 
2.43.0


From 502fdc4d529d4cbfeda8735e81d703b91f0c7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 033/132] fix: mirror() does not check the value of a failed
 read, nor keep the register locked without a map

---
 src/uvm/reg/uvm_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index e1d685b..ccc7c5c 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1126,6 +1126,7 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
@@ -1136,7 +1137,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[0] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
-- 
2.43.0


From da021d583ea745c53339906b2858b863a45aa0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 034/132] fix: a value read is checked against the mirrored,
 not the desired value

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index ccc7c5c..f706350 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1635,7 +1635,7 @@ class UVMReg(UVMObject):
             bkdr = self.get_backdoor()
             _map = UVMRegMap.backdoor()
             if _map.get_check_on_read():
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             if (bkdr is not None):
                 bkdr.read(rw)
@@ -1693,7 +1693,7 @@ class UVMReg(UVMObject):
             self.m_is_busy = True
 
             if (rw.local_map.get_check_on_read()):
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             map_info = arr_map_info[0]
             #  ...VIA USER FRONTDOOR
-- 
2.43.0


From a5c9d437c38ab69b07f84c71396d539735c33b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 035/132] fix: user-defined backdoors are awaited in register
 accesses

---
 src/uvm/reg/uvm_reg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f706350..8a1ac8e 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1461,7 +1461,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1481,7 +1481,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1638,7 +1638,7 @@ class UVMReg(UVMObject):
                 exp = self.get_mirrored_value()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1674,7 +1674,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
-- 
2.43.0


From a7582febd00c0ac11de8419eb9ec930987b8ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 036/132] fix: the response of the driver is used when the
 adapter provides responses

---
 src/uvm/reg/uvm_reg_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index e61b569..341e516 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1431,12 +1431,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
                     #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1580,11 +1580,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
-- 
2.43.0


From ec753dfa754fa1a8856d52ccc91bb548735727c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 037/132] fix: memory accesses which are not possible are not
 carried out

---
 src/uvm/reg/uvm_mem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index dc1491f..83e5862 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -939,7 +939,7 @@ class UVMMem(UVMObject):
 
                 if (_map_info_data.unmapped):
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + rw.local_map.get_full_name()
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
                     return 0
@@ -956,6 +956,7 @@ class UVMMem(UVMObject):
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
+                        rw.status = UVM_NOT_OK
                         return 0
 
             if rw.map is None:
@@ -972,7 +973,7 @@ class UVMMem(UVMObject):
         self.m_fname  = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_write()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_write()"):
             await uvm_zero_delay()
             return
 
@@ -1075,7 +1076,7 @@ class UVMMem(UVMObject):
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_read()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_read()"):
             await uvm_zero_delay()
             return
 
-- 
2.43.0


From f9896dc692268f3b82dbe211b746a215fed976eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 038/132] fix: burst_read() fills the values it is given,
 instead of appending them to themselves for ever

---
 src/uvm/reg/uvm_mem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 83e5862..c13ba27 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -759,13 +759,14 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        # as many locations are read as value has elements
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_READ
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = [0] * len(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
@@ -776,8 +777,7 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
+        value[:] = rw.value
 
 
     #   // Task: poke
-- 
2.43.0


From 62904e3ad17851de1ee27a6d78c0a696a4e970aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 039/132] fix: field callbacks have post_predict(), which every
 prediction of their field calls

---
 src/uvm/reg/uvm_reg_cbs.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index abeeb4b..73a1190 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -237,22 +237,25 @@ class UVMRegCbs(UVMCallback):
         pass
 
 
-    #   // Task: post_predict
-    #   //
-    #   // Called by the <uvm_reg_field::predict()> method
-    #   // after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
-    #   //
-    #   // ~previous~ is the previous value in the mirror and
-    #   // ~value~ is the latest predicted value. Any change to ~value~ will
-    #   // modify the predicted mirror value.
-    #   //
-    #   virtual function void post_predict(input uvm_reg_field  fld,
-    #                                      input uvm_reg_data_t previous,
-    #                                      inout uvm_reg_data_t value,
-    #                                      input uvm_predict_e  kind,
-    #                                      input uvm_path_e     path,
-    #                                      input uvm_reg_map    map)
-    #   endfunction
+    def post_predict(self, fld, previous, value, kind, path, _map):
+        """
+          Task: post_predict
+
+          Called by the `uvm_reg_field.predict` method
+          after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
+
+          `previous` is the previous value in the mirror and
+          `value` is the latest predicted value.
+
+        Args:
+            fld:
+            previous:
+            value:
+            kind:
+            path:
+            _map:
+        """
+        pass
 
 
     def encode(self, data):
-- 
2.43.0


From 4f8574b7dfbf79dcf46c71a34eb1c216123d7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 040/132] fix: the high search priority puts a resource in
 front, also when the configuration is set again

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..9f233af 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1514,7 +1514,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From dc500daebc39ee5c1f279751a3573cf161b62ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 041/132] fix: the type of a resource is the same from the
 first time it is asked for

---
 src/uvm/base/uvm_resource.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 9f233af..e08d5d7 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -654,8 +654,7 @@ class UVMResource(UVMResourceBase):
     def get_type(cls):
         if UVMResource.my_type is None:
             UVMResource.my_type = UVMResource()
-        else:
-            return UVMResource.my_type
+        return UVMResource.my_type
 
     def get_type_handle(self):
         """
-- 
2.43.0


From 98431f1775f53199d600d0a1669bbd64fca16d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 042/132] fix: resources are sorted by their precedence, not by
 the order of their appearance

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index e08d5d7..52fbe0b 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1282,7 +1282,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
-- 
2.43.0


From 4655eeca42ea66ebe79af1147d4ac3b0afa526d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 043/132] fix: configuration settings are applied so that the
 one of the highest precedence remains

---
 src/uvm/base/uvm_component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..60fa207 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,11 +1216,11 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for r in reversed(rq):
 
-            r = rq[i]
             name = r.get_name()
             # // does name have brackets [] in it?
+            j = 0
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
                     break
-- 
2.43.0


From 91281e50eb1ef25a9c01d810707a5478ddf6219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 044/132] fix: is_active of an agent is the setting of the
 highest precedence

---
 src/uvm/comps/uvm_agent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/comps/uvm_agent.py b/src/uvm/comps/uvm_agent.py
index 34afc24..d4e9b59 100644
--- a/src/uvm/comps/uvm_agent.py
+++ b/src/uvm/comps/uvm_agent.py
@@ -72,8 +72,8 @@ class UVMAgent(UVMComponent):
         rp = UVMResourcePool.get()
         rq = rp.lookup_name(self.get_full_name(), "is_active", None, 0)
         rq = UVMResourcePool.sort_by_precedence(rq)
-        for i in range(len(rq)):
-            rsrc = rq[i]  # uvm_resource_base
+        if len(rq) > 0:
+            rsrc = rq[0]  # uvm_resource_base
             rap = rsrc
             self.is_active = rap.read(self)
 
-- 
2.43.0


From 9229b85c2437051198926b03628a12810859c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 045/132] fix: a burst ends, and fails, with the first word
 which fails

---
 src/uvm/reg/uvm_reg_map.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 341e516..48f5abf 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1459,6 +1459,9 @@ class UVMRegMap(UVMObject):
                 if rw.status == UVM_NOT_OK:
                     break
 
+            if len(accesses) > 0 and rw.status == UVM_NOT_OK:
+                break
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
@@ -1606,6 +1609,9 @@ class UVMRegMap(UVMObject):
                 if (rw.parent is not None and i == len(addrs)-1):
                     rw.parent.post_do(rw)
 
+            if len(accesses) > 0 and rw.status == UVM_NOT_OK:
+                break
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
-- 
2.43.0


From 2aa3c1df953930ecb7b4d829cd61b15168f9cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 046/132] fix: a type override by name leaves the registered
 name to its type

---
 src/uvm/base/uvm_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..68b29ed 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,6 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From b9a16bd67d37731924ba6f37104ab7a2f2bb8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 047/132] fix: the registry of a class creates that class, not
 another class of its name

---
 src/uvm/base/uvm_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_registry.py b/src/uvm/base/uvm_registry.py
index fd09ecd..7a8bb93 100644
--- a/src/uvm/base/uvm_registry.py
+++ b/src/uvm/base/uvm_registry.py
@@ -101,7 +101,7 @@ class UVMComponentRegistry(UVMObjectWrapper):
             parent:
         Returns:
         """
-        return UVMComponentRegistry.comps[self.tname](name, parent)
+        return self.Constr(name, parent)
 
     def get_type_name(self) -> str:
         """
@@ -263,7 +263,7 @@ class UVMObjectRegistry(UVMObjectWrapper):
         It is called by the factory after determining the type of object to create.
         You should not call this method directly. Call <create> instead.
         """
-        return UVMObjectRegistry.objs[self.tname](name)
+        return self.Constr(name)
 
     def get_type_name(self) -> str:
         """
-- 
2.43.0


From bb58e338300683757d9530cf3f8caa1429a4a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 048/132] fix: a cycle of overrides is reported wherever it
 starts

---
 src/uvm/base/uvm_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 68b29ed..17e6589 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -667,10 +667,10 @@ class UVMDefaultFactory(UVMFactory):
         for index in range(0, len(self.m_override_info)):
             if self.m_override_info[index].orig_type == requested_type:
                 uvm_report_error("OVRDLOOP", "Recursive loop detected while finding override.", UVM_NONE)
+                self.m_override_info[index].used += 1
                 if UVMDefaultFactory.m_debug_pass is False:
                     self.debug_create_by_type(requested_type, full_inst_path)
 
-                self.m_override_info[index].used += 1
                 return requested_type
 
         # inst override; return first match; takes precedence over type overrides
-- 
2.43.0


From a0397616bbb3ce3baa9b9b2aeb58d205de0b25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 049/132] fix: a slice of a queue is its elements

---
 src/uvm/base/uvm_queue.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 0a59632..0f2ac67 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -137,11 +137,7 @@ class UVMQueue(UVMObject, Generic[T]):
         Raises:
         """
         if isinstance(i, slice):
-            # TODO should handle slices like [:] and [:-1]
-            res = []
-            for i in range(slice.start, slice.stop):
-                res.append(self.queue[i])
-            return res
+            return self.queue[i]
         elif i < self.size():
             return self.queue[i]
         else:
-- 
2.43.0


From cf6b84d1ee304bbb3ec0a16d0109ed948c6d56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 050/132] fix: a requested lock is granted, to one sequence at
 a time, and keeps the other requests

---
 src/uvm/seq/uvm_sequencer_base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..8201e0f 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -688,8 +688,7 @@ class UVMSequencerBase(UVMComponent):
         q = []  # uvm_sequence_request q[$]
         def find_with_func(item):
             return (item.request == SEQ_TYPE_LOCK and
-                    item.process_id.status == process.KILLED or
-                    item.process_id.status == process.FINISHED)
+                    item.process_id.status in (process.KILLED, process.FINISHED))
         q = self.arb_sequence_q.find_with(find_with_func)
                 #item, [{request: SEQ_TYPE_LOCK}, {'process_id.status':
                 #    [process::KILLED, process::FINISHED])
@@ -714,7 +713,7 @@ class UVMSequencerBase(UVMComponent):
 
         if b != 0:  # at least one lock
             # set of locks; arb_sequence[b] is the first req!=SEQ_TYPE_LOCK
-            leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q[0:b-1])
+            leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q[0:b])
             # split into blocked/not-blocked requests
             for i in range(len(leading_lock_reqs)):
                 item: uvm_sequence_request = leading_lock_reqs[i]
@@ -722,17 +721,17 @@ class UVMSequencerBase(UVMComponent):
                     blocked_seqs.push_back(item)
                 else:
                     not_blocked_seqs.push_back(item)
+                    self.lock_list.push_back(item.sequence_ptr)
 
             if b > (self.arb_sequence_q.size()-1):
                 self.arb_sequence_q = blocked_seqs
             else:
-                bseqs = cast(SeqReqList, self.arb_sequence_q[b:self.arb_sequence_q.size()-1])
+                bseqs = cast(SeqReqList, self.arb_sequence_q[b:self.arb_sequence_q.size()])
                 for seq in bseqs:
                     blocked_seqs.push_back(seq)
                 self.arb_sequence_q = blocked_seqs
 
             for idx in range(len(not_blocked_seqs)):
-                self.lock_list.push_back(not_blocked_seqs.get(idx).sequence_ptr)
                 self.m_set_arbitration_completed(not_blocked_seqs.get(idx).request_id)
 
             # trigger listeners if lock list has changed
-- 
2.43.0


From cb5ffaa77a126fc579598e4177c9625f630e1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 051/132] fix: finish_item returns when the item is done, not
 when the next one is asked for

---
 src/uvm/seq/uvm_sequencer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..a088636 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -181,6 +181,7 @@ class UVMSequencer(UVMSequencerParamBase):
             t = t[0]
             self.m_wait_for_item_sequence_id = t.get_sequence_id()
             self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            self.m_event_value_changed.set()
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From 4797dfc008fc25fb04b2ba4a34c07895e0e4564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 052/132] fix: get_next_item after stop_sequences selects a
 sequence, and after try_next_item is an error

---
 src/uvm/seq/uvm_sequencer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index a088636..b680031 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -83,8 +83,8 @@ class UVMSequencer(UVMSequencerParamBase):
         idle state.
         """
         super().stop_sequences()
-        self.sequence_item_requested  = 0
-        self.get_next_item_called     = 0
+        self.sequence_item_requested  = False
+        self.get_next_item_called     = False
         # Empty the request fifo
         if self.m_req_fifo.used():
             uvm_report_info(self.get_full_name(),
@@ -151,7 +151,7 @@ class UVMSequencer(UVMSequencerParamBase):
         self.arb_sequence_q.delete(selected_sequence)
         self.m_update_lists()
         self.sequence_item_requested = True
-        self.get_next_item_called = 1
+        self.get_next_item_called = True
 
         # give it one NBA to put a new item in the fifo
         await self.wait_for_sequences()
-- 
2.43.0


From c5b137ff5d45a34a939302fe137d057c7a6a1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 053/132] fix: a response is not missed when another one was
 taken before it came

---
 src/uvm/seq/uvm_sequence_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..af78083 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -1280,7 +1280,8 @@ class UVMSequenceBase(UVMSequenceItem):
                     self.m_resp_queue_event.set()
                     return
             #wait (self.response_queue.size() != queue_size)
-            await wait(lambda: self.response_queue.size() != queue_size,
+            await wait(lambda: any(item.get_transaction_id() == transaction_id
+                                   for item in self.response_queue.queue),
                        self.m_resp_queue_event)
 
 
-- 
2.43.0


From 04c6e6d5355b34dec42efd58ede294fc2d9b9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 054/132] fix: wait_for_sequence_state waits for the states it
 is given

---
 src/uvm/seq/uvm_sequence_base.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index af78083..64f353c 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -166,6 +166,7 @@ class UVMSequenceBase(UVMSequenceItem):
             name (str): Name of the sequence
         """
         UVMSequenceItem.__init__(self, name)
+        self.m_state_event = Event("sequence_state")
         self.m_sequence_state = UVM_CREATED
         self.m_wait_for_grant_semaphore = 0
         self.m_init_phase_daps(1)
@@ -233,12 +234,11 @@ class UVMSequenceBase(UVMSequenceItem):
             state_mask:
         Raises:
         """
-        state = self.m_sequence_state & state_mask
-        if state in self.m_events:
-            await self.m_events[state].wait()
-        else:
-            raise Exception("Cannot wait for state " + str(state)
-                    + " - not implemented")
+        await wait(lambda: self.m_sequence_state & state_mask, self.m_state_event)
+
+    def m_set_sequence_state(self, state):
+        self.m_sequence_state = state
+        self.m_state_event.set()
 
     def get_tr_handle(self):
         """
@@ -343,7 +343,7 @@ class UVMSequenceBase(UVMSequenceItem):
 
         # Change the state to PRE_START, do this before the fork so that
         # the "if (!(m_sequence_state inside {...}" works
-        self.m_sequence_state = UVM_PRE_START
+        self.m_set_sequence_state(UVM_PRE_START)
 
         self.m_sequence_process = cocotb.start_soon(self.start_process(parent_sequence, call_pre_post))
         await self.m_sequence_process
@@ -385,7 +385,7 @@ class UVMSequenceBase(UVMSequenceItem):
         await self.pre_start()
 
         if call_pre_post == 1:
-            self.m_sequence_state = UVM_PRE_BODY
+            self.m_set_sequence_state(UVM_PRE_BODY)
             #0
             await uvm_zero_delay()
             await self.pre_body()
@@ -394,12 +394,12 @@ class UVMSequenceBase(UVMSequenceItem):
             parent_sequence.pre_do(0)    # task
             parent_sequence.mid_do(self)  # function
 
-        self.m_sequence_state = UVM_BODY
+        self.m_set_sequence_state(UVM_BODY)
         #0
         await uvm_zero_delay()
         await self.body()
 
-        self.m_sequence_state = UVM_ENDED
+        self.m_set_sequence_state(UVM_ENDED)
         #0
         await uvm_zero_delay()
 
@@ -407,12 +407,12 @@ class UVMSequenceBase(UVMSequenceItem):
             parent_sequence.post_do(self)
 
         if call_pre_post == 1:
-            self.m_sequence_state = UVM_POST_BODY
+            self.m_set_sequence_state(UVM_POST_BODY)
             #0
             await uvm_zero_delay()
             await self.post_body()
 
-        self.m_sequence_state = UVM_POST_START
+        self.m_set_sequence_state(UVM_POST_START)
         #0
         await uvm_zero_delay()
         await self.post_start()
@@ -421,8 +421,7 @@ class UVMSequenceBase(UVMSequenceItem):
         if self.get_automatic_phase_objection():
             self.m_safe_drop_starting_phase("automatic phase objection")
 
-        self.m_sequence_state = UVM_FINISHED
-        self.m_events[UVM_FINISHED].set()
+        self.m_set_sequence_state(UVM_FINISHED)
         #0
         await uvm_zero_delay()
         #join
-- 
2.43.0


From 6d9b9be95ed4b16336ee2ecbde766eb52b07aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 055/132] fix: the drain time of an object which is given is
 set

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..0567981 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -899,7 +899,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
-- 
2.43.0


From 52edd69a9924edc5f4c8add75290f91268152584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 056/132] fix: every scheduled drain is executed, not one each
 time

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 0567981..0b65302 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -777,7 +777,7 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
-- 
2.43.0


From d7e3aca3aa5481050a5e8a9a40f0fb69f30e6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 057/132] fix: an objection raised during the drain of an
 object ends the drain

---
 src/uvm/base/uvm_objection.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 0b65302..fa747c0 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -514,15 +514,10 @@ class UVMObjection(UVMReportObject):
                 ctxt = self.m_forked_contexts[obj]
                 del self.m_forked_contexts[obj]
                 # Kill the drain
+                self.m_drain_proc[obj].kill()
+                del self.m_drain_proc[obj]
 
         uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
-        # TODO
-        #if UVM_USE_PROCESS_CONTAINER:
-        #    self.m_drain_proc[obj].kill()
-        #    del self.m_drain_proc[obj]
-        #else:
-        #    self.m_drain_proc[obj].p.kill()
-        #    del self.m_drain_proc[obj]
         uvm_debug(self, 'm_raise', obj.get_name() + " NEVER GETS HERE")
 
         if ctxt is None:
@@ -790,14 +785,15 @@ class UVMObjection(UVMReportObject):
                 # The fork will guard the m_forked_drain call, but
                 # a re-raise can kill self.m_forked_list contexts in the delta
                 # before the fork executes.
-                pproc = cocotb.start_soon(cls.m_execute_scheduled_forks_fork_join_none(c))
+                pproc = []
+                pproc.append(cocotb.start_soon(cls.m_execute_scheduled_forks_fork_join_none(c, pproc)))
                 #else:
                 #    uvm_error("UVMObjection", "Null objection in objection context")
 
 
     @classmethod
     async def m_execute_scheduled_forks_fork_join_none(cls,
-            c: 'UVMObjectionContextObject'):
+            c: 'UVMObjectionContextObject', pproc):
         objection = c.objection  # automatic uvm_objection
         # Check to maike sure re-raise didn't empty the fifo
         uvm_debug(cls, 'm_execute_scheduled_forks_fork_join_none', 'check list len')
@@ -810,25 +806,13 @@ class UVMObjection(UVMReportObject):
             # Move it in to forked (so re-raise can figure out props)
             objection.m_forked_contexts[ctxt.obj] = ctxt
             # Save off our process handle, so a re-raise can kill it...
-
-            # TODO
-            #if UVM_USE_PROCESS_CONTAINER == 0:
-            #    objection.m_drain_proc[ctxt.obj] = process::self()
-            #else:
-            #    process_container_c c = new(process::self())
-            #    objection.m_drain_proc[ctxt.obj]=c
+            objection.m_drain_proc[ctxt.obj] = pproc[0]
 
             # Execute the forked drain
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
                     ctxt.count, 1)
             # Cleanup if we survived (no re-raises)
-            if ctxt.obj in objection.m_drain_proc:
-                del objection.m_drain_proc[ctxt.obj]
-            else:
-                pass
-
-            # tpoikela: Added check since ctxt.obj becomes None
-            #if ctxt.obj in objection.m_forked_contexts:
+            del objection.m_drain_proc[ctxt.obj]
             del objection.m_forked_contexts[ctxt.obj]
             # Clear out the context object (prevent memory leaks)
             ctxt.clear()
@@ -953,6 +937,8 @@ class UVMObjection(UVMReportObject):
         if hasattr(comp, 'all_dropped'):
             await comp.all_dropped(self, source_obj, description, count)
         await uvm_do_callbacks_async(self, UVMObjectionCallback, 'all_dropped', self,obj, source_obj, description, count)
+        if obj not in self.m_drain_proc:
+            return  # killed by an objection raised in the callbacks
         if obj in self.m_events:
             self.m_events[obj].all_dropped.set()
         if obj == self.m_top:
-- 
2.43.0


From 4c099aff9ebe82260647b46d71b5e51e7f9f51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 058/132] fix: the counts are cleared while objects drain

---
 src/uvm/base/uvm_objection.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index fa747c0..510392c 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -715,7 +715,7 @@ class UVMObjection(UVMReportObject):
         if name == "":
             name = "uvm_top"
 
-        if (self.m_top_all_dropped is False and
+        if (not self.m_top_all_dropped and
                 self.get_objection_total(self.m_top) > 0):
             uvm_report_warning("OBJTN_CLEAR",("Object '" + name
                 + "' cleared objection counts for " + self.get_name()))
@@ -739,17 +739,12 @@ class UVMObjection(UVMReportObject):
         while len(self.m_forked_list) > 0:
             self.m_forked_list[0].clear()
             UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
+            del self.m_forked_list[0]
 
         # running drains have a context and a process
-        for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
+        for o in list(self.m_forked_contexts):
+            self.m_drain_proc[o].kill()
+            del self.m_drain_proc[o]
 
             self.m_forked_contexts[o].clear()
             UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
-- 
2.43.0


From 32bbec172217fa6058197dd6aacdb0d913e28d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 059/132] fix: a drop does not create objections which nothing
 releases

---
 src/uvm/base/uvm_objection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 510392c..4011141 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1165,7 +1165,7 @@ class UVMObjectionContextObject:
         self.description = ""
         self.count = 0
         #self.objection: Optional[UVMObjection] = None
-        self.objection = UVMObjection()
+        self.objection = None
 
     def clear(self):
         """
@@ -1176,4 +1176,4 @@ class UVMObjectionContextObject:
         self.source_obj = None
         self.description = ""
         self.count = 0
-        self.objection = UVMObjection()
+        self.objection = None
-- 
2.43.0


From a5f4cbe81a2ad4bf4dd2991fb1c0fde94da9f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 060/132] fix: an objection is copied, and does not share its
 counts with the copy

---
 src/uvm/base/uvm_objection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 4011141..8e383f2 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1143,10 +1143,10 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
-- 
2.43.0


From 1124942a5db1846a9374c76a04912fa005c48b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 061/132] fix: objections can be traced

---
 src/uvm/base/uvm_objection.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 8e383f2..1fcb151 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -300,33 +300,31 @@ class UVMObjection(UVMReportObject):
             last_dot = 0
             sname = source_obj.get_full_name()
             nm = obj.get_full_name()
-            _max = sname.len()
-            if sname.len() > nm.len():
-                _max = nm.len()
+            _max = min(len(sname), len(nm))
 
             # For readability, only print the part of the source obj hierarchy underneath
             # the current object.
-            while ((sname[cpath] == nm[cpath]) and (cpath < _max)):
+            while ((cpath < _max) and (sname[cpath] == nm[cpath])):
                 if (sname[cpath] == "."):
                     last_dot = cpath
                 cpath += 1
 
             if last_dot:
-                sname = sname.substr(last_dot+1, sname.len())
+                sname = sname[last_dot+1:]
 
-        name = obj.get_full_name()
-        if name == "":
-            name = "uvm_top"
-        act_type = "subtracted"
-        if action == "raised":
-            act_type = "added"
-        act_dir = "from"
-        if action == "raised":
-            act_dir = "to"
-        uvm_report_info("OBJTN_TRC",
-            sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
-            " source object %s%s): count=%0d  total=%0d", name, act_type, count,
-            act_dir, action, sname, descr, _count, _total), UVM_NONE)
+            name = obj.get_full_name()
+            if name == "":
+                name = "uvm_top"
+            act_type = "subtracted"
+            if action == "raised":
+                act_type = "added"
+            act_dir = "from"
+            if action == "raised":
+                act_dir = "to"
+            uvm_report_info("OBJTN_TRC",
+                sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
+                " source object %s%s): count=%0d  total=%0d", name, act_type, count,
+                act_dir, action, sname, descr, _count, _total), UVM_NONE)
 
     #  // Function- m_get_parent
     #  //
-- 
2.43.0


From 3e0e1664a9ba9fe68243f2006b389ee205c2113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 062/132] fix: an objection event which happened before is not
 waited for

---
 src/uvm/base/uvm_objection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 1fcb151..4d41d78 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -968,10 +968,13 @@ class UVMObjection(UVMReportObject):
 
         self.m_events[obj].waiters += 1
         if objt_event == UVM_RAISED:
+            self.m_events[obj].raised.clear()
             await self.m_events[obj].raised.wait()
         elif objt_event == UVM_DROPPED:
+            self.m_events[obj].dropped.clear()
             await self.m_events[obj].dropped.wait()
         elif objt_event == UVM_ALL_DROPPED:
+            self.m_events[obj].all_dropped.clear()
             await self.m_events[obj].all_dropped.wait()
 
         self.m_events[obj].waiters -= 1
-- 
2.43.0


From 2c6fb6d9cb007ea0210aab9284b6dd5507a99778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 063/132] fix: a phase is found on every branch of the
 schedule, not on the first one only

---
 src/uvm/base/uvm_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..b2c6526 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1021,7 +1021,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1050,7 +1051,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
-- 
2.43.0


From 54a7d6a250c4f70176ac13c34e313f7c5b33a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 064/132] fix: a phase added with another one does not share
 its relations with it

---
 src/uvm/base/uvm_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index b2c6526..8a0278b 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -523,8 +523,8 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
-- 
2.43.0


From 3f976332d3eb43a9ae244e16c295c7cddb3a4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 065/132] fix: a phase can be added between two phases which
 follow each other

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 8a0278b..263418a 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -559,7 +559,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
-- 
2.43.0


From 8bb007f0cf584b51b9a0fe71d10bdafa6686402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 066/132] fix: a phase which is the last one does not have to
 be named final

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 263418a..3749c4a 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1148,7 +1148,7 @@ class UVMPhase(UVMObject):
                     done = False
 
         # remove ourselves from the list
-        if self.get_name() != 'final':
+        if self in pred_of_succ:
             del pred_of_succ[self]
 
 
-- 
2.43.0


From f5e08d9554488af22f1c778855e4cf71ce21bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 067/132] fix: wait_for_state returns when the phase is in that
 state already

---
 src/uvm/base/uvm_phase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 3749c4a..08dd62a 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -919,11 +919,9 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
-            await self.m_phase_set_state_event.wait()
+        while not func():
             self.m_phase_set_state_event.clear()
-            if func():
-                break
+            await self.m_phase_set_state_event.wait()
 
     #
     #
-- 
2.43.0


From 9590ce32afd6245cdd8e042a20025119d08f0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 068/132] fix: find() of the own implementation returns the
 node, not the implementation

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 08dd62a..7542758 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -358,7 +358,7 @@ class UVMPhase(UVMObject):
         #+ " (scope " + self.m_phase_type.name() +")" + in_scope))
         found = None
         if phase == self.m_imp or phase == self:
-            return phase
+            return self
 
         found = self.m_find_predecessor(phase, stay_in_scope, self)
         if found is None:
-- 
2.43.0


From 061106154ede1a1cfba5de37a5eb566687efdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 069/132] fix: a phase visits all children, also when a
 component iterates through them in it

---
 src/uvm/base/uvm_bottomup_phase.py | 9 ++++-----
 src/uvm/base/uvm_topdown_phase.py  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..f46daf7 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,10 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # get_first_child/get_next_child have one position only, which is not
+        # kept when a phase iterates through the children, too
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..9ea63fb 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,10 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # get_first_child/get_next_child have one position only, which is not
+        # kept when a phase iterates through the children, too
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From 9856ebb16347d06a5f2d3648df8246c3cb6ce3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 070/132] fix: find_all() and printing do not move the position
 of an iteration through the children

---
 src/uvm/base/uvm_printer.py | 12 +++---------
 src/uvm/base/uvm_root.py    | 12 ++----------
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index bc3d587..f5473ba 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -245,15 +245,9 @@ class UVMPrinter():
                 comp = value
                 name = ""
                 if hasattr(comp, "has_first_child"):
-                    if comp.has_first_child():
-                        child_comp = comp.get_first_child()
-                        ok = True
-                        while ok is True:
-                            if child_comp.print_enabled:
-                                self.print_object("", child_comp)
-                            ok = comp.has_next_child()
-                            if ok is True:
-                                child_comp = comp.get_next_child()
+                    for child_comp in comp.m_children_ordered:
+                        if child_comp.print_enabled:
+                            self.print_object("", child_comp)
 
                 # print members of object
                 value.sprint(self)
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..9ec6724 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -475,16 +475,8 @@ class UVMRoot(UVMComponent):
             comps:
             comp:
         """
-        child_comp = None
-
-        if comp.has_first_child():
-            child_comp = comp.get_first_child()
-            while True:
-                self.m_find_all_recurse(comp_match, comps, child_comp)
-                if not comp.has_next_child():
-                    break
-                else:
-                    child_comp = comp.get_next_child()
+        for child_comp in comp.m_children_ordered:
+            self.m_find_all_recurse(comp_match, comps, child_comp)
         if uvm_is_match(comp_match, comp.get_full_name()) and comp.get_name() != "":
             comps.append(comp)
 
-- 
2.43.0


From 54edaa1e0b4c9e853beacaa4725f3afaf0ac77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 071/132] fix: function phases beside each other do not wait
 for each other for ever

---
 src/uvm/base/uvm_phase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 7542758..b831f25 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1408,6 +1408,10 @@ class UVMPhase(UVMObject):
                 # WAIT FOR PREDECESSORS:  // WAIT FOR PREDECESSORS:
                 # function phases only
                 if task_phase is None:
+                    # the phases beside this one may wait for it in the same way
+                    state_chg.m_prev_state = self.m_state
+                    self.set_state(UVM_PHASE_READY_TO_END)
+                    uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
                     await self.m_wait_for_pred()
 
             #-------
-- 
2.43.0


From 438cbd101bda763fba2c77ddc3a36258b1458581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 072/132] fix: pack only the low bits of a value into an
 integral field

A value with more bits than the field corrupted the following fields
(little endian) or raised (big endian), and a negative value never
returned.
---
 src/uvm/base/uvm_packer.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 40d2e7c..230f417 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -159,7 +159,7 @@ class UVMPacker(object):
             self.m_bits |= flipped << self.count
             # self.m_bits[count+i] = value[size-1-i]
         else:
-            self.m_bits |= value << self.count
+            self.m_bits |= (value & ((1 << size) - 1)) << self.count
         self.count += size
 
 
@@ -175,7 +175,7 @@ class UVMPacker(object):
             self.m_bits |= flipped << self.count
             #self.m_bits[self.count+i] = value[size-1-i]
         else:
-            self.m_bits |= value << self.count
+            self.m_bits |= (value & ((1 << size) - 1)) << self.count
             #self.m_bits[self.count+i] = value[i]
         self.count += size
 
@@ -732,18 +732,11 @@ class UVMPacker(object):
 
     def flip_bit_order(self, value, size: int) -> int:
         flipped = 0x0
-        num_bits = len(bin(value)) - 2
-        while value:
-            flipped = (flipped << 1) + (value & 0x1)  # Choose LSB
+        if size == -1:
+            size = value.bit_length()
+        for _ in range(size):
+            flipped = (flipped << 1) | (value & 0x1)  # Choose LSB
             value = value >> 1
-        # For packing, need to add some right-padding
-        if size != -1:
-            rem_bits = size - num_bits
-            if rem_bits >= 0:
-                flipped <<= rem_bits
-            else:
-                raise Exception("rem_bits negative. size: {}, value: {}".format(
-                    size, hex(value)))
         return flipped
 
 
-- 
2.43.0


From 0cf7d49f7e2c7c39b39f5efaaabe8fad1cdbf719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 073/132] fix: pack_bytes and pack_ints obey the number of bits
 asked for

---
 src/uvm/base/uvm_packer.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 230f417..f3eb66b 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -206,12 +206,10 @@ class UVMPacker(object):
                 size, max_size))
             return
         else:
+            bits = 0
             for i in range(len(value)):
-                byte = value[i]
-                if self.big_endian == 1:
-                    byte = self.flip_bit_order(value[len(value)-1-i], 8)
-                self.m_bits |= byte << self.count
-                self.count += 8
+                bits |= (value[i] & 0xFF) << (8 * i)
+            self.pack_field(bits, size)
 
 
     #  // Function: pack_ints
@@ -254,13 +252,10 @@ class UVMPacker(object):
                     size, max_size))
             return
         else:
+            bits = 0
             for i in range(len(value)):
-                int_num = value[i]
-                if self.big_endian == 1:
-                    int_num = self.flip_bit_order(value[len(value)-1-i],
-                        SIZEOF_INT)
-                self.m_bits |= int_num << self.count
-                self.count += SIZEOF_INT
+                bits |= (value[i] & MASK_INT) << (SIZEOF_INT * i)
+            self.pack_field(bits, size)
 
 
     #  // Function: pack_string
-- 
2.43.0


From 33ca0d96df034adeccb9c436e5129236a374729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 074/132] fix: unpack_bytes and unpack_ints read from the
 current position

They always read from bit 0 and ignored a size smaller than the array.
---
 src/uvm/base/uvm_packer.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index f3eb66b..c804b93 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -445,14 +445,11 @@ class UVMPacker(object):
             return []
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
+                bits = self.unpack_field(size)
                 for b in range(len(value)):
-                    byte = (self.m_bits >> b * 8) & 0xFF
-                    if self.big_endian == 1:
-                        byte = self.flip_bit_order(byte, 8)
-                        value[len(value)-1-b] = byte
-                    else:
-                        value[b] = byte
+                    mask = (((1 << size) - 1) >> (b * 8)) & 0xFF
+                    byte = (bits >> (b * 8)) & 0xFF
+                    value[b] = (value[b] & 0xFF & ~mask) | byte
             return value
 
 
@@ -496,14 +493,11 @@ class UVMPacker(object):
             return
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
+                bits = self.unpack_field(size)
                 for i in range(len(value)):
-                    int_num = (self.m_bits >> i * SIZEOF_INT) & 0xFFFFFFFF
-                    if self.big_endian == 1:
-                        int_num = self.flip_bit_order(int_num, SIZEOF_INT)
-                        value[len(value)-1-i] = int_num
-                    else:
-                        value[i] = int_num
+                    mask = (((1 << size) - 1) >> (i * SIZEOF_INT)) & MASK_INT
+                    int_num = (bits >> (i * SIZEOF_INT)) & MASK_INT
+                    value[i] = (value[i] & MASK_INT & ~mask) | int_num
             return value
 
 
-- 
2.43.0


From e2c40911998bec4cdeea78f0ff9f8f52cfe71bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 075/132] fix: strings can be unpacked after and before other
 fields

A string was stored last character first, without the null character
that metadata asks for, lost leading zero bits in big endian order, the
empty string raised and a counted unpack swallowed the next 8 bits.
---
 src/uvm/base/uvm_packer.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index c804b93..e204d37 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -272,15 +272,10 @@ class UVMPacker(object):
     def pack_string(self, value) -> None:
         bytearr = value.encode()
 
-        size = 8 * len(bytearr)
-        bits = int(bytearr.hex(), 16)
-        if self.big_endian == 1:
-            bits = self.flip_bit_order(bits, -1)
-        self.m_bits |= bits << self.count
-        self.count += size
+        for byte in bytearr:
+            self.pack_field_int(byte, 8)
         if self.use_metadata == 1:
-            pass
-            # TODO self.m_bits |= 0 << self.count
+            self.pack_field_int(0, 8)
         #  byte b
         #  foreach (value[index]):
         #    if(self.big_endian == 0)
@@ -535,10 +530,14 @@ class UVMPacker(object):
             #        b[7-j] = self.m_bits[count+j]
             #  unpack_string[i] = b
             i += 1
-            byte_arr.insert(0, curr_byte)
+            if self.big_endian == 1:
+                curr_byte = self.flip_bit_order(curr_byte, 8)
+            byte_arr.append(curr_byte)
             self.count += 8
             curr_byte = (self.m_bits >> self.count) & 0xFF
-        if self.enough_bits(8,"string", is_error=False):
+        # Step over the terminating null character
+        if ((is_null_term == 1 or self.use_metadata == 1) and
+                self.enough_bits(8,"string", is_error=False)):
             self.count += 8
         return byte_arr.decode()
         #return unpack_string
-- 
2.43.0


From d3c8caa5ae48c0d73d50a3df6bdf38cfd150717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 076/132] fix: packing objects: None and the metadata header

---
 src/uvm/base/uvm_packer.py | 39 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index e204d37..5d5b9a3 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -324,28 +324,27 @@ class UVMPacker(object):
     #
     #  extern def pack_object(self,uvm_object value):
     def pack_object(self, value) -> None:
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
-                value.get_inst_id()))
-            return
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
+                    value.get_inst_id()))
+                return
 
-        value._m_uvm_status_container.cycle_check[value] = 1
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if((self.policy != UVM_REFERENCE) and value is not None):
             if self.use_metadata == 1:
-                pass
-                #self.m_bits[count +: 4] = 1
-                #count += 4; // to better debug when display packed bits in hexadecimal
+                self.m_bits |= 1 << self.count
+                self.count += 4  # to better debug when display packed bits in hexadecimal
 
             self.scope.down(value.get_name())
             value._m_uvm_field_automation(None, UVM_PACK,"")
             value.do_pack(self)
             self.scope.up()
         elif self.use_metadata == 1:
-            pass
-            #self.m_bits[count +: 4] = 0
-            #count += 4
-        del value._m_uvm_status_container.cycle_check[value]
+            self.count += 4
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  //------------------//
@@ -579,14 +578,15 @@ class UVMPacker(object):
     def unpack_object(self, value):
         is_non_null = 1
 
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf(
-                "Cycle detected for object @%0d during unpack", value.get_inst_id()))
-            return
-        value._m_uvm_status_container.cycle_check[value] = 1
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf(
+                    "Cycle detected for object @%0d during unpack", value.get_inst_id()))
+                return
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if self.use_metadata == 1:
-            is_non_null = get_bits(self.m_bits, self.count, 4) != 0  # [count +: 4]
+            is_non_null = ((self.m_bits >> self.count) & 0xF) != 0  # [count +: 4]
             self.count += 4
 
         # NOTE- policy is a ~pack~ policy, not unpack policy;
@@ -604,7 +604,8 @@ class UVMPacker(object):
                 #       this does not nullify argument; need to pass obj by ref
         elif ((is_non_null != 0) and (value is None)):
              uvm_error("UNPOBJ","cannot unpack into None object")
-        del value._m_uvm_status_container.cycle_check[value]
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  // Function: get_packed_size
-- 
2.43.0


From 24dbf43d3af90e03c872735659504885857d7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 077/132] fix: unpacking a bit stream that starts with zeros

The size of the stream was taken from the highest bit that is set, so
what pack() returned could not be unpacked when the last field packed
started with zeros.
---
 src/uvm/base/uvm_packer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 5d5b9a3..c463c0b 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -30,6 +30,7 @@ from typing import List
 
 
 SIZEOF_INT = 32
+MAX_STREAMBITS = 4096
 MASK_INT = 0xFFFFFFFF
 
 
@@ -675,6 +676,13 @@ class UVMPacker(object):
 
     #  extern def put_bits(self,ref bit unsigned bitstream[]):
     def put_bits(self, bitstream):
+        # NOTE: an int has no leading zeros: either pass the (size, bits) pair
+        # returned by UVMObject.pack, or the stream is padded with zeros
+        size = MAX_STREAMBITS
+        if isinstance(bitstream, tuple):
+            size, bitstream = bitstream
+        elif bitstream.bit_length() > size:
+            size = bitstream.bit_length()
         #  int bit_size
         #  bit_size = bitstream.size()
         #
@@ -686,7 +694,7 @@ class UVMPacker(object):
         #      self.m_bits[i] = bitstream[i]
         #
         self.m_bits = bitstream
-        self.m_packed_size = len(bin(self.m_bits)) - 2
+        self.m_packed_size = size
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
-- 
2.43.0


From 9e9c8d48f8c74e275412163f218d3dab677646dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 078/132] fix: add put_bytes and put_ints, which unpack_bytes
 and unpack_ints call

---
 src/uvm/base/uvm_packer.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index c463c0b..9f2e7b3 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -674,6 +674,28 @@ class UVMPacker(object):
         return ints
 
 
+    def put_bytes(self, bytestream):
+        self.m_bits = 0
+        for i in range(len(bytestream)):
+            byte = bytestream[i] & 0xFF
+            if self.big_endian:
+                byte = self.flip_bit_order(byte, 8)
+            self.m_bits |= byte << (8 * i)
+        self.m_packed_size = 8 * len(bytestream)
+        self.count = 0
+
+
+    def put_ints(self, intstream):
+        self.m_bits = 0
+        for i in range(len(intstream)):
+            int_num = intstream[i] & MASK_INT
+            if self.big_endian:
+                int_num = self.flip_bit_order(int_num, SIZEOF_INT)
+            self.m_bits |= int_num << (SIZEOF_INT * i)
+        self.m_packed_size = SIZEOF_INT * len(intstream)
+        self.count = 0
+
+
     #  extern def put_bits(self,ref bit unsigned bitstream[]):
     def put_bits(self, bitstream):
         # NOTE: an int has no leading zeros: either pass the (size, bits) pair
-- 
2.43.0


From b5a8429206ac79632bf17310871c394cac90a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 079/132] fix: get_plusargs() returns the arguments and not
 their first character

---
 src/uvm/base/uvm_cmdline_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..1438821 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -526,11 +526,11 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-            if sub == "UVM":
+            if sub == "UVM" and arg[0] in "+-":
                 self.m_uvm_argv.append(arg)
                 uvm_debug(self, '__init__', "Found UVM plusarg %s" % (arg))
 
-- 
2.43.0


From 27848f0c5480ab8f7c2d5438143a9dd22e342f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 080/132] fix: malformed +uvm_set_verbosity arguments are
 reported and ignored

They raised an IndexError while components were created or were applied
as verbosity -1, and the check of one argument was done on the fields of
all arguments before it.
---
 src/uvm/base/uvm_component.py | 10 +++++-----
 src/uvm/base/uvm_root.py      |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 60fa207..543d69e 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2367,11 +2367,11 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
-            else:
+            len_match = len(args) in [4, 5]
+            if len_match:
+                setting.verbosity = clp.m_convert_verb(args[2])
+            if (len_match and setting.verbosity != -1 and
+                    (len(args) == 4 or args[4].isdigit())):
                 setting.comp = args[0]
                 setting.id = args[1]
                 setting.verbosity = clp.m_convert_verb(args[2])
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 9ec6724..0195266 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -530,10 +530,13 @@ class UVMRoot(UVMComponent):
         self.clp.get_arg_values("+uvm_set_verbosity=", set_verbosity_settings)
 
         for i in range(len(set_verbosity_settings)):
+            split_vals.clear()
             uvm_split_string(set_verbosity_settings[i], ",", split_vals)
-            if len(split_vals) < 4 or len(split_vals) > 5:
+            if (len(split_vals) < 4 or len(split_vals) > 5 or
+                    (len(split_vals) == 5 and not split_vals[4].isdigit())):
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
+                continue
 
             # Invalid verbosity
             if self.clp.m_convert_verb(split_vals[2]) == -1:
-- 
2.43.0


From 93e1c4df17976db8ab9dbec3802424c6d09786b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 081/132] fix: +uvm_set_verbosity=...,time settings are applied
 at their time

The times between the settings were all counted from the start of the
simulation.
---
 src/uvm/base/uvm_component.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 543d69e..2460ef3 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2410,13 +2410,14 @@ class UVMComponent(UVMReportObject):
             top.find_all(m_time_settings[i].comp, comps)
             duration = m_time_settings[i].offset - last_time
             last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
+            await self.m_set_comp_settings(i, comps.copy(), duration)
         #end join_none // fork begin
 
 
     async def m_set_comp_settings(self, i, comps, dur):
         m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
+        if dur > 0:
+            await Timer(dur)
         if m_time_settings[i].id == "_ALL_":
             for comp in comps:
                 comp.set_report_verbosity_level(m_time_settings[i].verbosity)
-- 
2.43.0


From b3b7bbb951ee4a85b473a1f166054a81cc428543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 082/132] fix: apply +uvm_set_verbosity settings that are for a
 phase

Any such setting raised a TypeError when the phase was started.
---
 src/uvm/base/uvm_component.py | 39 ++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 2460ef3..8117786 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2575,29 +2575,26 @@ class UVMComponent(UVMReportObject):
         Args:
             phase:
         """
-        pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
-                    else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
+        for setting in self.m_verbosity_settings.copy():
+            if phase.get_name() == setting.phase:
+                if setting.offset == 0:
+                    self.m_apply_verbosity_setting(setting)
                 else:
-                    #process p = process::self()
-                    #string p_rand = p.get_randstate()
-                    #fork begin
-                    setting = self.m_verbosity_settings[i]
-                    #setting.offset
-                    if setting.id == "_ALL_":
-                        self.set_report_verbosity_level(setting.verbosity)
-                    else:
-                        self.set_report_id_verbosity(setting.id, setting.verbosity)
-                    #end join_none
-                    #p.set_randstate(p_rand)
+                    cocotb.start_soon(self.m_apply_verbosity_setting_after(setting))
                 # Remove after use
-                del self.m_verbosity_settings[i]
+                self.m_verbosity_settings.remove(setting)
+
+
+    async def m_apply_verbosity_setting_after(self, setting):
+        await Timer(setting.offset)
+        self.m_apply_verbosity_setting(setting)
+
+
+    def m_apply_verbosity_setting(self, setting):
+        if setting.id == "_ALL_":
+            self.set_report_verbosity_level(setting.verbosity)
+        else:
+            self.set_report_id_verbosity(setting.id, setting.verbosity)
 
     def kill(self):
         """
-- 
2.43.0


From 470266fcca04ee991748b4b888b037d6835ead6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 083/132] fix: check of the severity and action in
 +uvm_set_action and +uvm_set_severity

UVM_INFO and UVM_NO_ACTION were rejected, unknown severities and actions
accepted, and a wrong number of fields raised an IndexError.
---
 src/uvm/base/uvm_component.py |  7 ++++---
 src/uvm/base/uvm_globals.py   | 16 +++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 8117786..5f909e1 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2447,12 +2447,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if((args[2] != "_ALL_") and uvm_string_to_severity(args[2], sev) == -1):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if uvm_string_to_action(args[3], action) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
@@ -2508,7 +2509,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index b20cadd..d3bf8f2 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -216,20 +216,22 @@ def uvm_string_to_action(action_str, action):
     for i in range(len(actions)):
         if actions[i] == "UVM_NO_ACTION":
             action |= UVM_NO_ACTION
-        if actions[i] == "UVM_DISPLAY":
+        elif actions[i] == "UVM_DISPLAY":
             action |= UVM_DISPLAY
-        if actions[i] == "UVM_LOG":
+        elif actions[i] == "UVM_LOG":
             action |= UVM_LOG
-        if actions[i] == "UVM_COUNT":
+        elif actions[i] == "UVM_COUNT":
             action |= UVM_COUNT
-        if actions[i] == "UVM_EXIT":
+        elif actions[i] == "UVM_EXIT":
             action |= UVM_EXIT
-        if actions[i] == "UVM_CALL_HOOK":
+        elif actions[i] == "UVM_CALL_HOOK":
             action |= UVM_CALL_HOOK
-        if actions[i] == "UVM_STOP":
+        elif actions[i] == "UVM_STOP":
             action |= UVM_STOP
-        if actions[i] == "UVM_RM_RECORD":
+        elif actions[i] == "UVM_RM_RECORD":
             action |= UVM_RM_RECORD
+        else:
+            return -1
     return action
 
 """
-- 
2.43.0


From d76f15a4caadbbf6bec43d532427c27e1ff57d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 084/132] fix: +UVM_TIMEOUT sets the timeout that was given

The two fields of the argument were swapped, and a timeout without the
override flag was taken as 0.  +UVM_MAX_QUIT_COUNT with any other flag
than YES and NO is overridable, as is the timeout.
---
 src/uvm/base/uvm_root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 0195266..412ccb8 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -576,7 +576,9 @@ class UVMRoot(UVMComponent):
 
             matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
             if len(matches) == 2:
-                override_spec, timeout_int = matches
+                timeout_int, override_spec = matches
+            else:
+                timeout_int = int(timeout.split(",")[0])
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
@@ -692,6 +694,8 @@ class UVMRoot(UVMComponent):
                     srvr.set_max_quit_count(max_quit_int, 1)
                 elif split_max_quit[1] == "NO":
                     srvr.set_max_quit_count(max_quit_int, 0)
+                else:
+                    srvr.set_max_quit_count(max_quit_int, 1)
             else:
                 srvr.set_max_quit_count(max_quit_int, 1)
 
-- 
2.43.0


From 01a70436dd54adf59ca5f359fdb6517c66e6b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 085/132] fix: +uvm_set_type_override was ignored

---
 src/uvm/base/uvm_root.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 412ccb8..ab1944a 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -635,7 +635,32 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
-        pass  # TODO
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        replace = 1
+        cs = UVMCoreService.get()
+        factory = cs.get_factory()
+
+        uvm_split_string(ovr, ",", split_val)
+
+        if len(split_val) not in [2, 3]:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid setting for +uvm_set_type_override="
+                + ovr
+                + ", setting must specify <requested_type>,<override_type>[,<replace>]", UVM_NONE)
+            return
+
+        # Replace arg is optional. If set, must be 0 or 1
+        if len(split_val) == 3:
+            if split_val[2] not in ["0", "1"]:
+                self.uvm_report_error("UVM_CMDLINE_PROC",
+                    "Invalid replace arg for +uvm_set_type_override=" + ovr
+                    + " value must be 0 or 1", UVM_NONE)
+                return
+            replace = int(split_val[2])
+
+        self.uvm_report_info("UVM_CMDLINE_PROC",
+            "Applying type override from the command line: +uvm_set_type_override=" + ovr, UVM_NONE)
+        factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 
 
     def m_do_config_settings(self):
-- 
2.43.0


From ac53652e6637bdd4a12e939890e2eb0bc08dc464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 086/132] fix: +UVM_VERBOSITY which is not a verbosity is
 reported, as for 0

---
 src/uvm/base/uvm_root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index ab1944a..772399b 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -864,7 +864,10 @@ class UVMRoot(UVMComponent):
             elif verb_string == "DEBUG":
                 verbosity = UVM_DEBUG
             else:
-                verbosity = int(verb_string)
+                try:
+                    verbosity = int(verb_string)
+                except ValueError:
+                    verbosity = 0
                 if verbosity > 0:
                     self.uvm_report_info("NSTVERB",
                             sv.sformatf(NON_STD_VERB, verbosity), UVM_NONE)
-- 
2.43.0


From ba2b75b8313bade62fe7663b7bbb232c73ad6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 087/132] fix: +uvm_set_config_int whose value is not a number
 is reported and ignored

---
 src/uvm/base/uvm_root.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 772399b..f1c2d5b 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -773,10 +773,10 @@ class UVMRoot(UVMComponent):
             return
 
         if is_int:
-            if len(split_val[2]) > 2:
-                #base = split_val[2].substr(0,1)
-                base = split_val[2][0:2]
-                extval = split_val[2][2:len(split_val[2])]
+            #base = split_val[2].substr(0,1)
+            base = split_val[2][0:2]
+            extval = split_val[2][2:len(split_val[2])]
+            try:
                 if base in ["'b", "0b"]:
                     v = int(extval, 2)
                 elif base == "'o":
@@ -787,8 +787,10 @@ class UVMRoot(UVMComponent):
                     v = int(extval, 16)
                 else:
                     v = int(split_val[2])
-            else:
-                v = int(split_val[2])
+            except ValueError:
+                uvm_report_error("UVM_CMDLINE_PROC", "Invalid +uvm_set_config_int command\""
+                    + cfg + "\": value is not a number", UVM_NONE)
+                return
 
             self.uvm_report_info("UVM_CMDLINE_PROC", ("Applying config setting "
                     + "from the command line: +uvm_set_config_int=" + cfg), UVM_NONE)
-- 
2.43.0


From 0a84f685724599954b72a5bf5f1c3d0395278a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 088/132] fix: find() warns when no component matches

---
 src/uvm/base/uvm_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index f1c2d5b..f58aaf1 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,7 +415,7 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
+              "Component matching '" + comp_match +
                "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
-- 
2.43.0


From dc95e0332eac2571b7a6fb754db2a40942b97910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 089/132] fix: +UVM_MAX_QUIT_COUNT=<n>,NO cannot be overridden

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 2d51286..21d5034 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -191,7 +191,7 @@ class UVMReportServer(UVMObject):
     # before a UVM_EXIT action is taken. The default is 0, which specifies
     # no maximum.
     def set_max_quit_count(self, count, overridable=True):
-        if self.max_quit_overridable is False:
+        if not self.max_quit_overridable:
             uvm_report_info("NOMAXQUITOVR",
                 "The max quit count setting of {} is not overridable to {} due to a previous setting."
                 .format(self.m_max_quit_count, count), UVM_NONE)
-- 
2.43.0


From 278498d48dbed088d39c688309e46982f8cc15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 090/132] fix: an event with callbacks is triggered, and all
 callbacks are asked

---
 src/uvm/base/uvm_event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..50cbef9 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -331,7 +331,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
+                if tmp.pre_trigger(self, data):
+                    skip = True
         if skip is False:
             self.m_event.set(data)
             if self.callbacks.size() > 0:
-- 
2.43.0


From aba9325810954313cb88eb1671ca6e6232a82fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 091/132] fix: wait_trigger waits for the next trigger,
 wait_ptrigger also for one in this time step

---
 src/uvm/base/uvm_event.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 50cbef9..ceeae11 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -54,6 +54,7 @@ class UVMEventBase(UVMObject):
         self.on = False
         self.on_event = Event("on_event_" + name)
         self.trigger_time = 0
+        self.m_trigger_slot = None  # time step of the last trigger
         self.callbacks = UVMQueue()  # list[uvm_event_callback]
         self.m_waiters = 0
         self.m_value_changed_event = Event("value_changed_event_" + name)
@@ -144,8 +145,8 @@ class UVMEventBase(UVMObject):
 
         """
         self.num_waiters += 1
+        self.m_event.clear()  # an earlier trigger does not count
         await self.m_event.wait()
-        self.m_event.clear()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +156,11 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.m_trigger_slot == sv.realtime("step"):
             return
         self.num_waiters += 1
-        await self.m_event.wait()
         self.m_event.clear()
+        await self.m_event.wait()
 
     def get_trigger_time(self):
         """
@@ -208,6 +209,7 @@ class UVMEventBase(UVMObject):
         self.num_waiters = 0
         self.set_value("on", False)
         self.trigger_time = 0
+        self.m_trigger_slot = None
 
 
     def cancel(self):
@@ -343,6 +345,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             self.num_waiters = 0
             self.set_value("on", True)
             self.trigger_time = sv.realtime()
+            self.m_trigger_slot = sv.realtime("step")
             self.trigger_data = data
 
 
-- 
2.43.0


From 039dd68b8c2c553b17ef5b5edc0e57893232708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 092/132] fix: wait_on and wait_off do not miss an event which
 is turned on and off at once

---
 src/uvm/base/uvm_event.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index ceeae11..b005fa9 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -53,6 +53,8 @@ class UVMEventBase(UVMObject):
         self.num_waiters = 0
         self.on = False
         self.on_event = Event("on_event_" + name)
+        self.m_num_on = 0  # how often it was turned on and off
+        self.m_num_off = 0
         self.trigger_time = 0
         self.m_trigger_slot = None  # time step of the last trigger
         self.callbacks = UVMQueue()  # list[uvm_event_callback]
@@ -109,7 +111,8 @@ class UVMEventBase(UVMObject):
             await uvm_zero_delay()  # TODO tpoikela: redundant, should be removed?
             return
         self.num_waiters += 1
-        await wait(lambda: self.on is True, self.m_value_changed_event)
+        n = self.m_num_on
+        await wait(lambda: self.m_num_on != n, self.m_value_changed_event)
 
 
     async def wait_off(self, delta=False):
@@ -130,7 +133,8 @@ class UVMEventBase(UVMObject):
                 await uvm_zero_delay()
             return
         self.num_waiters += 1
-        await wait(lambda: self.on is False, self.m_value_changed_event)
+        n = self.m_num_off
+        await wait(lambda: self.m_num_off != n, self.m_value_changed_event)
 
 
     async def wait_trigger(self):
@@ -207,6 +211,7 @@ class UVMEventBase(UVMObject):
             self.m_event.set()
         self.m_event = Event()
         self.num_waiters = 0
+        self.m_num_off += 1
         self.set_value("on", False)
         self.trigger_time = 0
         self.m_trigger_slot = None
@@ -343,6 +348,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
                     tmp = self.callbacks[i]
                     tmp.post_trigger(self,data)  # type: ignore
             self.num_waiters = 0
+            self.m_num_on += 1
             self.set_value("on", True)
             self.trigger_time = sv.realtime()
             self.m_trigger_slot = sv.realtime("step")
-- 
2.43.0


From fa778093403349c13c0722a20c11cab85b62e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 093/132] fix: the first callback of an event can be added to
 the front

---
 src/uvm/base/uvm_event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index b005fa9..815b7ae 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -386,7 +386,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From a45d253e0e4793e67f7a8c5455c4e03b51bd8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 094/132] fix: field macros of a derived class no longer add
 its fields to its base class

---
 src/uvm/macros/uvm_object_defines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 03656bb..3d900e9 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -121,9 +121,10 @@ def uvm_object_utils_end(T):
 
 def uvm_field_utils_start(T):
     # Create static member containers for var names and masks
-    if not hasattr(T, "_m_uvm_field_names"):
+    # Each class has its own, the fields of the bases are handled by the bases
+    if "_m_uvm_field_names" not in T.__dict__:
         setattr(T, "_m_uvm_field_names", [])
-    if not hasattr(T, "_m_uvm_field_masks"):
+    if "_m_uvm_field_masks" not in T.__dict__:
         setattr(T, "_m_uvm_field_masks", {})
 
     def _m_uvm_field_automation(self, rhs, what__, str__):
-- 
2.43.0


From de35086acbfe2b9e771bdd8b02e5245cd27db026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 095/132] fix: compare() of objects whose string, missing or
 other fields differ

---
 src/uvm/macros/uvm_object_defines.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 3d900e9..b3f7d9d 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -150,6 +150,8 @@ def uvm_field_utils_start(T):
             for v in vals:
                 mask_v = masks[v]
                 if not(mask_v & UVM_NOCOPY) and (mask_v & UVM_COPY != 0):
+                    if not hasattr(rhs, v):  # object of another type
+                        continue
                     v_attr = getattr(rhs, v)
                     if hasattr(v_attr, "clone"):
                         setattr(self, v, v_attr.clone())
@@ -159,19 +161,31 @@ def uvm_field_utils_start(T):
             for v in vals:
                 mask_v = masks[v]
                 if not(mask_v & UVM_NOCOMPARE) and (mask_v & UVM_COMPARE != 0):
-                    v_attr_rhs = getattr(rhs, v)
                     v_attr_self = getattr(self, v)
+                    if not hasattr(rhs, v):  # object of another type
+                        T_cont_obj.scope.set_arg(v)
+                        T_cont.comparer.print_msg("no such field in rhs")
+                        continue
+                    v_attr_rhs = getattr(rhs, v)
                     # Try simple equality first
                     if v_attr_rhs != v_attr_self:
-                        if isinstance(v_attr_self, int):
+                        if (isinstance(v_attr_self, int) and
+                                isinstance(v_attr_rhs, int)):
+                            size = 1 + max(v_attr_self.bit_length(),
+                                v_attr_rhs.bit_length())
                             T_cont.comparer.compare_field(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif isinstance(v_attr_self, str):
+                                v_attr_self, v_attr_rhs, size)
+                        elif (isinstance(v_attr_self, str) and
+                                isinstance(v_attr_rhs, str)):
                             T_cont.comparer.compare_string(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif hasattr(v_attr_self, "compare"):
+                                v_attr_self, v_attr_rhs)
+                        elif (isinstance(v_attr_self, (UVMObject, type(None))) and
+                                isinstance(v_attr_rhs, (UVMObject, type(None)))):
                             T_cont.comparer.compare_object(v,
                                 v_attr_self, v_attr_rhs)
+                        else:
+                            T_cont.comparer.compare_field_real(v,
+                                v_attr_self, v_attr_rhs)
 
                         if (T_cont.comparer.result and
                                 T_cont.comparer.show_max <= T_cont.comparer.result):
-- 
2.43.0


From 120352a2b1550c0369a3fa1ac82d9c57ae9014c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 096/132] fix: fields with UVM_REFERENCE are copied by
 reference

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index b3f7d9d..88f8ac7 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -153,7 +153,7 @@ def uvm_field_utils_start(T):
                     if not hasattr(rhs, v):  # object of another type
                         continue
                     v_attr = getattr(rhs, v)
-                    if hasattr(v_attr, "clone"):
+                    if hasattr(v_attr, "clone") and not(mask_v & UVM_REFERENCE):
                         setattr(self, v, v_attr.clone())
                     else:
                         setattr(self, v, v_attr)
-- 
2.43.0


From e47f8e2af081e318634bb0844ab85178355ca0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 097/132] fix: compare_field() compares the number of bits it
 was given

---
 src/uvm/base/uvm_comparer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 0651039..aa23716 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -167,10 +167,7 @@ class UVMComparer:
         Returns:
 
         """
-        mask = 0
-        msg = ""
-        if size <= 64:
-            return self.compare_field_int(name, lhs, rhs, size, radix)
+        return self.compare_field_int(name, lhs, rhs, size, radix)
         #
         #    mask = -1
         #    mask >>= (UVM_STREAMBITS-size)
@@ -237,8 +234,7 @@ class UVMComparer:
         """
         mask = 0x0
         msg = ""
-        mask = -1
-        mask >>= (64-size)
+        mask = (1 << size) - 1
         if (lhs & mask) != (rhs & mask):
             UVMObject._m_uvm_status_container.scope.set_arg(name)
             msg = "lhs = {} : rhs = {}".format(lhs, rhs)
-- 
2.43.0


From 896b21f7067d8d73452156fbea34a21781eba70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 098/132] fix: miscompares of objects are reported with the
 verbosity of the comparer

---
 src/uvm/base/uvm_comparer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index aa23716..5c7140d 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -444,10 +444,10 @@ class UVMComparer:
                 rhs_id = rhs.get_inst_id()
             root.uvm_report(self.sev, "MISCMP",
                 sv.sformatf("Miscompare for %0s: lhs = @%0d : rhs = @%0d",
-                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id,
-                self.verbosity, "`uvm_file", "`uvm_line"))
+                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id),
+                self.verbosity, "`uvm_file", "`uvm_line")
 
-            self.miscompares = sv.sformatf("%s%s: lhs = @%0d : rhs = @%0d",
+            self.miscompares = sv.sformatf("%s%s: lhs = @%0d : rhs = @%0d\n",
                 self.miscompares, UVMObject._m_uvm_status_container.scope.get(),
                 lhs_id, rhs_id)
 
-- 
2.43.0


From 0c9baea86c74df5ffd70d21a79bb54cacc0fc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 099/132] fix: compare() with None reports a miscompare instead
 of failing

---
 src/uvm/base/uvm_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..443f702 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -620,7 +620,7 @@ class UVMObject(sv_obj):
                      cls._m_uvm_status_container.scope.get(),
                       self.get_inst_id()),
                       cls._m_uvm_status_container.comparer.verbosity)
-                done = 1
+            done = 1
 
         if(not done and comparer.compare_map.exists(rhs)):
             if(comparer.compare_map[rhs] != self):
-- 
2.43.0


From 149fa1d6b36408b7696c9542eeabdcb39b401ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 100/132] fix: copy() of objects which refer to each other ends

---
 src/uvm/base/uvm_object.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 443f702..4e0de2b 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -289,6 +289,9 @@ class UVMObject(sv_obj):
         Returns:
             UVMObject: Clone of the object.
         """
+        if self in UVMObject.uvm_global_copy_map:
+            # Reached again while it is copied: refer to that copy
+            return UVMObject.uvm_global_copy_map[self]
         tmp = self.create(self.get_name())
         if tmp is None:
             uvm_report_warning("CRFLD", sv.sformatf(
@@ -520,7 +523,6 @@ class UVMObject(sv_obj):
             rhs (UVMObject): An object to be copied.
         """
         # For cycle checking
-        UVMObject.depth = 0
         if (rhs is not None) and rhs in UVMObject.uvm_global_copy_map:
             return
 
@@ -531,12 +533,12 @@ class UVMObject(sv_obj):
 
         UVMObject.uvm_global_copy_map[rhs] = self
         UVMObject.depth += 1
-        self._m_uvm_field_automation(rhs, UVM_COPY, "")
-        self.do_copy(rhs)
-
-        UVMObject.depth -= 1
-        if UVMObject.depth == 0:
-            UVMObject.uvm_global_copy_map = {}
+        try:
+            self._m_uvm_field_automation(rhs, UVM_COPY, "")
+            self.do_copy(rhs)
+        finally:
+            UVMObject.depth -= 1
+            del UVMObject.uvm_global_copy_map[rhs]
 
     def do_copy(self, rhs) -> None:
         """
-- 
2.43.0


From 8aa16bfbca9e1ae0b44a882e45bcb78d6a0472f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 101/132] fix: array fields are copied, not shared with the
 copy

---
 src/uvm/macros/uvm_object_defines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 88f8ac7..7d30a33 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -155,6 +155,8 @@ def uvm_field_utils_start(T):
                     v_attr = getattr(rhs, v)
                     if hasattr(v_attr, "clone") and not(mask_v & UVM_REFERENCE):
                         setattr(self, v, v_attr.clone())
+                    elif isinstance(v_attr, (list, dict)):
+                        setattr(self, v, v_attr.copy())
                     else:
                         setattr(self, v, v_attr)
         elif what__ == UVM_COMPARE:
-- 
2.43.0


From ef2f4d71d109437f8d49462670cac1c54f950052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 102/132] fix: get() of the run-time phases returns the phase
 every time, not only at first

---
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From a25a6228f93a0ee2aa9358a405e2d3de76aa55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 103/132] fix: a domain of its own is added beside the run
 phase of the common domain

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 5f909e1..2c617d8 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1043,7 +1043,7 @@ class UVMComponent(UVMReportObject):
             domain.add(schedule)
             common = UVMDomain.get_common_domain()
             if common.find(domain,0) is None:
-                common.add(domain, with_phase=UVMRunPhase.get())
+                common.add(domain, with_phase=common.find(UVMRunPhase.get()))
 
 
     def set_phase_imp(self, phase, imp, hier=1):
-- 
2.43.0


From 5a4162e10e420ef85ac1057a3968f68f3b4c29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 104/132] fix: a block with sub-blocks can be updated

---
 src/uvm/reg/uvm_reg_block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..8dd9862 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -949,9 +949,10 @@ class UVMRegBlock(UVMObject):
         uvm_check_output_args([status])
         stat_all = UVM_IS_OK
 
-        if self.needs_update() is False:
+        if not self.needs_update():
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
+            status.append(stat_all)
             return
 
 
@@ -972,9 +973,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
-- 
2.43.0


From 0ca720909b626d789d4fbdc828cc79edcde884ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 105/132] fix: write_reg_by_name() writes the register and
 returns its status

---
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index 8dd9862..cfd184f 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -1045,10 +1045,11 @@ class UVMRegBlock(UVMObject):
         self.fname = fname
         self.lineno = lineno
 
-        status = UVM_NOT_OK
         rg = self.get_reg_by_name(name)
         if rg is not None:
             await rg.write(status, data, path, map, parent, prior, extension)
+        else:
+            status.append(UVM_NOT_OK)
 
 
     #   // Task: read_reg_by_name
-- 
2.43.0


From f484a2d3da2e089a2ed108c6ca3e80d166c261b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 106/132] fix: build_coverage() without any included coverage
 builds none

---
 src/uvm/reg/uvm_mem.py       | 3 ++-
 src/uvm/reg/uvm_reg.py       | 3 ++-
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index c13ba27..ed76364 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1612,7 +1612,8 @@ class UVMMem(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 8a1ac8e..6547c6e 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2260,7 +2260,8 @@ class UVMReg(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index cfd184f..47e0ab1 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -708,7 +708,8 @@ class UVMRegBlock(UVMObject):
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage",
                 cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 233ec9cc1406cf64656ea781f81c23c0a3037167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 107/132] fix: backdoor reads of registers and memories which
 consist of slices

---
 src/uvm/reg/uvm_mem.py | 5 +++--
 src/uvm/reg/uvm_reg.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index ed76364..c93aead 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1487,9 +1487,10 @@ class UVMMem(UVMObject):
                         val = arr[0]
                         continue
 
-                    _slice = 0
+                    arr = []
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    _slice = arr[0]
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 6547c6e..b0b9942 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2144,10 +2144,11 @@ class UVMReg(UVMObject):
                     val = arr[0]
                     continue
 
-                _slice = 0
+                arr = []
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                _slice = arr[0]
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0


From bc8d0090486680143810ee193c013480c5891830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 108/132] fix: a comparison which returns 0 is a mismatch

---
 src/uvm/comps/uvm_in_order_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/comps/uvm_in_order_comparator.py b/src/uvm/comps/uvm_in_order_comparator.py
index 218a4bf..1dc97df 100644
--- a/src/uvm/comps/uvm_in_order_comparator.py
+++ b/src/uvm/comps/uvm_in_order_comparator.py
@@ -167,7 +167,7 @@ class UVMInOrderComparator(UVMComponent):
             a = arr_a[0]
 
             # pytype: disable=wrong-arg-types
-            if self.CompType.comp(b, a) is False:
+            if not self.CompType.comp(b, a):
                 s = sv.sformatf("%s differs from %s", self.Convert.convert2string(a),
                     self.Convert.convert2string(b))
                 uvm_error("Comparator Mismatch", s)
-- 
2.43.0


From b6f876a97b2421f14dcbdc45349393854b4086e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:17 +0000
Subject: [PATCH 109/132] fix: pairs compare and copy both of their members

---
 src/uvm/comps/uvm_pair.py | 57 +++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..f1c5aab 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -29,7 +29,7 @@ This section defines container classes for handling value pairs.
 
 from uvm.base.sv import sv
 from uvm.base.uvm_object import UVMObject
-from uvm.macros import uvm_object_utils, uvm_error
+from uvm.macros import uvm_object_utils, uvm_error, uvm_fatal
 
 
 
@@ -86,22 +86,24 @@ class UVMClassPair(UVMObject):
         return s
 
 
-    #  def do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs)):
-    #      uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",get_type_name(),"'"})
-    #      return 0
-    #    end
-    #    return first.compare(rhs_.first)  and  second.compare(rhs_.second)
-    #  endfunction
+    def do_compare(self, rhs, comparer):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '" +
+                self.get_type_name() + "'")
+            return 0
+        rhs_ = rhs_[0]
+        return self.first.compare(rhs_.first) and self.second.compare(rhs_.second)
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first.copy(rhs_.first)
-    #    second.copy(rhs_.second)
-    #  endfunction
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '" +
+                self.get_type_name() + "'")
+            return
+        rhs_ = rhs_[0]
+        self.first.copy(rhs_.first)
+        self.second.copy(rhs_.second)
 
 
 uvm_object_utils(UVMClassPair)
@@ -139,7 +141,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -153,18 +155,21 @@ class UVMBuiltInPair(UVMObject):
     def do_compare(self, rhs, comparer):
         rhs_ = []
         if not sv.cast(rhs_,rhs, UVMBuiltInPair):
-            uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
-                self.get_type_name(),"'"})
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '" +
+                self.get_type_name() + "'")
             return 0
-        rhs_ = rhs[0]
+        rhs_ = rhs_[0]
         return self.first == rhs_.first and self.second == rhs_.second
 
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first = rhs_.first
-    #    second = rhs_.second
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMBuiltInPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '" +
+                self.get_type_name() + "'")
+            return
+        rhs_ = rhs_[0]
+        self.first = rhs_.first
+        self.second = rhs_.second
 
 uvm_object_utils(UVMBuiltInPair)
-- 
2.43.0


From fea9bc241ad69e34a3086a196a39fb08339c8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 110/132] fix: the reset test skipped blocks whose map has
 submaps, and all blocks below them

---
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index 35e237c..d32ae76 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -29,7 +29,7 @@ from ...base.uvm_resource_db import UVMResourceDb
 from ...base.sv import sv
 from ...base import UVM_LOW, UVM_HIGH
 from ...base.uvm_globals import uvm_zero_delay
-from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, uvm_status_e
+from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_NO_HIER, UVM_IS_OK, uvm_status_e
 
 
 class UVMRegHWResetSeq(UVMRegSequence):
@@ -97,7 +97,6 @@ class UVMRegHWResetSeq(UVMRegSequence):
     
     async def do_block(self, blk):
         maps = []  # uvm_reg_map maps[$]
-        sub_maps = []  # uvm_reg_map sub_maps[$]
         no_rr1 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_TESTS", 0)
         no_rr2 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_HW_RESET_TEST", 0)
 
@@ -108,17 +107,12 @@ class UVMRegHWResetSeq(UVMRegSequence):
 
         # Iterate over all maps defined for the RegModel block
         for d in range(len(maps)):
-            regs = []  # uvm_reg[]
-            maps[d].get_submaps(sub_maps)
-            if len(sub_maps) != 0:
-                continue
-
             # Iterate over all registers in the map, checking accesses
             # Note: if map were in inner loop, could test simulataneous
             # access to same reg via different bus interfaces
 
             regs = []
-            maps[d].get_registers(regs)
+            maps[d].get_registers(regs, UVM_NO_HIER)
 
             for i in range(len(regs)):
                 status = 0
@@ -143,10 +137,10 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           sv.sformatf("Status was %s when reading reset value of register \"%s\" through map \"%s\".",
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
-            blks = []  # uvm_reg_block blks[$]
-            blk.get_blocks(blks)
-            for i in range(len(blks)):
-                await self.do_block(blks[i])
+        blks = []  # uvm_reg_block blks[$]
+        blk.get_blocks(blks)
+        for i in range(len(blks)):
+            await self.do_block(blks[i])
 
         #   endtask:do_block
 
-- 
2.43.0


From 4f47901c6bf18c86aed4fd0c5abab369c792378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 111/132] fix: the register tests visited blocks two levels
 down more than once, and below blocks kept out of the test

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_mem_walk_seq.py     | 2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py | 2 +-
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..f56dc79 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -274,7 +274,7 @@ class UVMMemAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
 
         blks = []  # uvm_reg_block[$]
 
-        blk.get_blocks(blks)
+        blk.get_blocks(blks, UVM_NO_HIER)
         for i in range(len(blks)):
             await self.do_block(blks[i])
 
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..428cbde 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -276,7 +276,7 @@ class UVMMemWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             await self.mem_seq.start(None, self)
 
         blks = []  # uvm_reg_block [$]
-        blk.get_blocks(blks)
+        blk.get_blocks(blks, UVM_NO_HIER)
         for i in range(len(blks)):
             await self.do_block(blks[i])
 
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..efe529f 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -262,7 +262,7 @@ class UVMRegAccessSeq(UVMRegSequence):
             await self.reg_seq.start(None,self)
 
         blks = []  # uvm_reg_block[$]
-        blk.get_blocks(blks)
+        blk.get_blocks(blks, UVM_NO_HIER)
         for i in range(len(blks)):
             await self.do_block(blks[i])
 
diff --git a/src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py b/src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py
index 6ddffc6..fa49cb7 100644
--- a/src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py
@@ -267,7 +267,7 @@ class UVMRegBitBashSeq(UVMRegSequence):
             await self.reg_seq.start(None,self)
 
         blks = []
-        blk.get_blocks(blks)
+        blk.get_blocks(blks, UVM_NO_HIER)
         for blk in blks:
             await self.do_block(blk)
 
diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index d32ae76..84c5b33 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -138,7 +138,7 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
         blks = []  # uvm_reg_block blks[$]
-        blk.get_blocks(blks)
+        blk.get_blocks(blks, UVM_NO_HIER)
         for i in range(len(blks)):
             await self.do_block(blks[i])
 
-- 
2.43.0


From 4300d9f3abaa80e7ebb0cd17067bf943189492fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 112/132] fix: the access and walk tests crashed instead of
 reporting a failed bus or backdoor access

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 6 +++---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index f56dc79..bec3599 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -125,7 +125,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           uvm_status_e(status), mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,7 +135,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        uvm_status_e(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -173,7 +173,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        uvm_status_e(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index 428cbde..5d43d17 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index efe529f..25b56b9 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
-- 
2.43.0


From f2a6b4202330b887d1e91996d9c24fa89ca6748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 113/132] fix: the memory access test crashed on a read-only
 memory

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index bec3599..dd2d563 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -120,8 +120,10 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     val = (val << 32) | sv.random()
                 if mode == "RO":
                     status = []
-                    await mem.peek(status, k, exp)
+                    exp = []
+                    mem.peek(status, k, exp)
                     status = status[0]
+                    exp = exp[0]
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-- 
2.43.0


From 7902155b9e482d1da22f1c97b1bc2498da3b025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:10 +0000
Subject: [PATCH 114/132] fix: the memory access test wrote, and expected back,
 values wider than a memory word of over 32 bits

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index dd2d563..9c91eef 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -117,7 +117,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             for k in range(mem.get_size()):
                 val = sv.random() & (1 << n_bits) - 1  # cast to 'uvm_reg_data_t' removed
                 if n_bits > 32:
-                    val = (val << 32) | sv.random()
+                    val = ((val << 32) | sv.random()) & (1 << n_bits) - 1
                 if mode == "RO":
                     status = []
                     exp = []
-- 
2.43.0


From 48e3cfe25ecb665c7b1c6a716163f38d7a56ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:10 +0000
Subject: [PATCH 115/132] fix: the memory walk test took NO_MEM_ACCESS_TEST of
 a block for NO_MEM_WALK_TEST

---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index 5d43d17..0f149e6 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -258,7 +258,7 @@ class UVMMemWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
                 "NO_MEM_TESTS", 0) is not None or
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
-                "NO_MEM_ACCESS_TEST", 0) is not None):
+                "NO_MEM_WALK_TEST", 0) is not None):
             return
 
         # Iterate over all memories, checking accesses
-- 
2.43.0


From 7064343326a145fac56370192afc4934db85b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 116/132] fix: a component recorded only the first of the
 transactions begun in its main stream

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 2c617d8..eee1b52 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2288,7 +2288,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
-- 
2.43.0


From 74bae51aa3092fe923207153808dc6296f2a0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 117/132] fix: a closed record was closed again, and a freed
 one still handed out a handle

---
 src/uvm/base/uvm_recorder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..9907c16 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -204,8 +204,8 @@ class UVMRecorder(UVMObject):
 
         self.do_close(close_time)
 
-        self.m_is_opened = 0
-        self.m_is_closed = 1
+        self.m_is_opened = False
+        self.m_is_closed = True
         self.m_close_time = close_time
 
 
@@ -242,7 +242,7 @@ class UVMRecorder(UVMObject):
         # Clear out internal state
         stream = self.get_stream()
 
-        self.m_is_closed = 0
+        self.m_is_closed = False
         if p is not None:
             s = p.get_randstate()
         self.m_stream_dap = uvm_set_before_get_dap("stream_dap")
@@ -332,7 +332,7 @@ class UVMRecorder(UVMObject):
 
         self.m_stream_dap.set(stream)
         self.m_open_time = open_time
-        self.m_is_opened = 1
+        self.m_is_opened = True
 
         self.do_open(stream, open_time, type_name)
 
-- 
2.43.0


From 2278d57030e89c70a68045748d7fe9571233a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 118/132] fix: asking a transaction stream that is not yet open
 whether it is open crashed

---
 src/uvm/base/uvm_tr_stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index 938f7f3..ac1ff07 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -105,6 +105,8 @@ class UVMTrStream(UVMObject):
         #   // Active records in the stream (active == open or closed)
         self.m_records = {}  # bit [uvm_recorder]
         self.m_warn_null_cfg = 0
+        self.m_is_opened = False
+        self.m_is_closed = False
 
 
     #   // Variable- m_ids_by_stream
-- 
2.43.0


From bfaff59ba7c21b00cfe22e5b367e5a7735199156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 119/132] fix: a transaction database that had been closed
 could not be opened again

---
 src/uvm/base/uvm_tr_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..c05d2de 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -111,7 +111,7 @@ class UVMTrDatabase(UVMObject):
         """
         if self.m_is_opened:
             if self.do_close_db():
-                self.m_is_opened = 0
+                self.m_is_opened = False
         return self.m_is_opened == 0
 
     def is_open(self):
-- 
2.43.0


From 2e78cf0b526c06bf0777969dec919b57e8f4767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 120/132] fix: a transaction database rejected every link
 between its records

---
 src/uvm/base/uvm_tr_database.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index c05d2de..ca9b334 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -244,30 +244,32 @@ class UVMTrDatabase(UVMObject):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
 
+            return
+
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "right hand side '<None>' is not supported in links for 'UVMTrDatabase'")
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
+        if (not sv.cast(s_lhs, lhs, UVMTrStream)) and (not sv.cast(r_lhs, lhs,
             UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
         else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
+            s_lhs = s_lhs[0] if s_lhs else None
+            r_lhs = r_lhs[0] if r_lhs else None
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if (not sv.cast(s_rhs, rhs, UVMTrStream)) and (not sv.cast(r_rhs, rhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
                 rhs.get_type_name()))
             return
         else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
+            s_rhs = s_rhs[0] if s_rhs else None
+            r_rhs = r_rhs[0] if r_rhs else None
 
         if r_lhs is not None:
             s_lhs = r_lhs.get_stream()
@@ -433,8 +435,8 @@ class UVMTextTrDatabase(UVMTrDatabase):
 
         sv.cast(cast_r_lhs, lhs, UVMRecorder)
         sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
+        r_lhs = cast_r_lhs[0] if cast_r_lhs else None
+        r_rhs = cast_r_rhs[0] if cast_r_rhs else None
 
         if (r_lhs is None or r_rhs is None):
             return
-- 
2.43.0


From 926b2cb0b5c3676acc828a6b9781d26956fb86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 121/132] fix: creating a link between two related records
 crashed

---
 src/uvm/base/uvm_links.py | 41 ++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..732b4a8 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -405,33 +405,26 @@ class UVMRelatedLink(UVMLinkBase):
 
     #   // Group: Implementation Callbacks
     #
-    #   // Function: do_set_lhs
-    #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
 
-    #   // Function: do_get_lhs
-    #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
+    def do_set_lhs(self, lhs):
+        # Function: do_set_lhs
+        # Sets the left-hand-side
+        self.m_lhs = lhs
 
-    #   // Function: do_set_rhs
-    #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_get_lhs(self):
+        # Function: do_get_lhs
+        # Retrieves the left-hand-side
+        return self.m_lhs
 
-    #   // Function: do_get_rhs
-    #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+    def do_set_rhs(self, rhs):
+        # Function: do_set_rhs
+        # Sets the right-hand-side
+        self.m_rhs = rhs
+
+    def do_get_rhs(self):
+        # Function: do_get_rhs
+        # Retrieves the right-hand-side
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
-- 
2.43.0


From e60f8d3fc9a7c84113824d97e7da1d663241291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 122/132] fix: a child transaction was not linked to its parent
 in the database

---
 src/uvm/base/uvm_transaction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..6c35d47 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -25,6 +25,7 @@ from .sv import sv
 from .uvm_recorder import UVMRecorder
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
+from .uvm_links import UVMParentChildLink
 
 
 class UVMTransaction(UVMObject):
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    db.establish_link(UVMParentChildLink.get_link(parent_recorder,
+                        self.tr_recorder))
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
-- 
2.43.0


From 034385505b2ed3403ebbbc88d080af1439f9350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 123/132] fix: uvm_do_on crashed with every item and sequence

---
 src/uvm/macros/uvm_sequence_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 6d93093..4f65259 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -155,7 +155,7 @@ async def uvm_do_on(seq_obj, SEQ_OR_ITEM, SEQR):
     the sequence in which the macro is invoked, and it sets the sequencer to the
     specified ~SEQR~ argument.
     """
-    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, {})
+    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1)
 
 
 #// MACRO: `uvm_do_on_pri
-- 
2.43.0


From 615178b72a8d7ab0015af02c3485c55faff150a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 124/132] fix: an item done on another sequencer went to the
 default one

---
 src/uvm/macros/uvm_sequence_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 4f65259..4c55dfa 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -222,7 +222,7 @@ async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS)
         await SEQ_OR_ITEM.start(SEQR, seq_obj, PRIORITY, 0)
     else:
         # TODO handle constraints
-        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
+        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY, SEQR)
         if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
             uvm_warning("RNDFLD", "Randomization failed in uvm_do_with action")
         await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)
-- 
2.43.0


From af946254a17694877dc00d8078bc5720a961e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 125/132] fix: the sequence created for a register write stayed
 in the sequencer for ever

---
 src/uvm/reg/uvm_reg_map.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 48f5abf..7b386a8 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1656,11 +1656,8 @@ class UVMRegMap(UVMObject):
             uvm_debug(self, 'do_write', 'do_bus_write because adapter exists')
             await self.do_bus_write(rw, sequencer, adapter)
 
-        # TODO
-        #  if (tmp_parent_seq is not None)
-        #    sequencer.m_sequence_exiting(tmp_parent_seq)
-        #
-        #endtask
+        if tmp_parent_seq is not None:
+            sequencer.m_sequence_exiting(tmp_parent_seq)
 
 
     async def do_read(self, rw: UVMRegItem) -> None:
-- 
2.43.0


From 2049cb817e827ae12d9dbaaca6f56866d8ed4f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 126/132] fix: a translation sequence without an upstream
 sequencer crashed

---
 src/uvm/reg/uvm_reg_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_sequence.py b/src/uvm/reg/uvm_reg_sequence.py
index 37a7c0f..96ea7e5 100644
--- a/src/uvm/reg/uvm_reg_sequence.py
+++ b/src/uvm/reg/uvm_reg_sequence.py
@@ -23,7 +23,7 @@
 #//
 
 import cocotb
-from cocotb.triggers import Timer
+from cocotb.triggers import Event, Timer
 from ..seq.uvm_sequence import UVMSequence
 from ..macros import uvm_object_utils, uvm_fatal, uvm_warning, uvm_info
 from ..base import UVM_LOW, UVM_HIGH
@@ -157,7 +157,7 @@ class UVMRegSequence(UVMSequence):
                self.m_sequencer.get_full_name() + "' does not have an upstream sequencer defined. "
                + "Execution of register items available only via direct calls to 'do_reg_item'")
             #wait(0);
-            await uvm_zero_delay()
+            await Event().wait()
         uvm_info("REG_XLATE_SEQ_START",
            "Starting RegModel translation sequence on sequencer " +
            self.m_sequencer.get_full_name() + "'", UVM_LOW)
-- 
2.43.0


From 8e4fddbe232d0fdc0e6dc1d1bbfa15431da4bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 127/132] fix: a translation sequence read where it had to
 write a burst

---
 src/uvm/reg/uvm_reg_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_sequence.py b/src/uvm/reg/uvm_reg_sequence.py
index 96ea7e5..c489c9f 100644
--- a/src/uvm/reg/uvm_reg_sequence.py
+++ b/src/uvm/reg/uvm_reg_sequence.py
@@ -28,7 +28,7 @@ from ..seq.uvm_sequence import UVMSequence
 from ..macros import uvm_object_utils, uvm_fatal, uvm_warning, uvm_info
 from ..base import UVM_LOW, UVM_HIGH
 from ..base.uvm_globals import uvm_zero_delay
-from .uvm_reg_model import UVM_WRITE
+from .uvm_reg_model import UVM_WRITE, UVM_BURST_WRITE
 
 #//------------------------------------------------------------------------------
 #// TITLE: Register Sequence Classes
@@ -195,7 +195,7 @@ class UVMRegSequence(UVMSequence):
             self.upstream_parent = rw.parent
             rw.parent = self
 
-        if (rw.kind == UVM_WRITE):
+        if rw.kind in (UVM_WRITE, UVM_BURST_WRITE):
             await rw.local_map.do_bus_write(rw, self.m_sequencer, self.adapter)
         else:
             await rw.local_map.do_bus_read(rw, self.m_sequencer, self.adapter)
-- 
2.43.0


From c015341cdcd6b9d3dcc7ed98bf269e78f1ad8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:04 +0000
Subject: [PATCH 128/132] fix: numbers printed in octal showed their decimal
 digits

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c76d5f5..c822c60 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -204,7 +204,7 @@ def num_with_radix(radix, radix_str: str, value) -> str:
     if radix == UVM_BIN:
         return "{}{:b}".format(radix_str, value)
     if radix == UVM_OCT:
-        return "{}{}".format(radix_str, value)
+        return "{}{:o}".format(radix_str, value)
     if radix == UVM_UNSIGNED:
         return "{}{}".format(radix_str, value)
     if radix == UVM_STRING:
-- 
2.43.0


From e213935af64f6c2d9014778494384dda1e82e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:04 +0000
Subject: [PATCH 129/132] fix: the radix given to a field was ignored when it
 was printed

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 7d30a33..baa92f2 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -202,7 +202,7 @@ def uvm_field_utils_start(T):
 
                     if isinstance(v_attr_self, int):
                         T_cont.printer.print_field(v, v_attr_self,
-                            sv.bits(v_attr_self), (what__ & UVM_RADIX))
+                            sv.bits(v_attr_self), (mask_v & UVM_RADIX))
                     elif isinstance(v_attr_self, UVMObject):
                         if mask_v & UVM_REFERENCE:
                             T_cont.printer.print_object_header(v, v_attr_self)
-- 
2.43.0


From 345bdb762feb3557c4f74489bee3f108c903bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 130/132] fix: printing an object in an array closed the array

---
 src/uvm/base/uvm_printer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index f5473ba..df130c8 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -243,7 +243,6 @@ class UVMPrinter():
                 # Handle children of the comp
                 #if($cast(comp, value)) begin
                 comp = value
-                name = ""
                 if hasattr(comp, "has_first_child"):
                     for child_comp in comp.m_children_ordered:
                         if child_comp.print_enabled:
-- 
2.43.0


From 71f16c27450bde80990d8f56c2dc363c1f1e52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 131/132] fix: rows of nested objects were not aligned with the
 columns of a printed table

---
 src/uvm/base/uvm_printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index df130c8..f359fbf 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -716,7 +716,7 @@ class UVMTablePrinter(UVMPrinter):
             if user_format == "":
                 row_str = ""
                 if self.knobs.identifier:
-                    row_str = (space[1:row.level * self.knobs.indent] + row.name
+                    row_str = (space[1:row.level * self.knobs.indent + 1] + row.name
                         + space[1:self.m_max_name-len(row.name)-(row.level*self.knobs.indent)+2])
                 if self.knobs.type_name:
                     row_str = (row_str + row.type_name
@@ -788,7 +788,7 @@ class UVMTreePrinter(UVMPrinter):
             row = self.m_rows[i]
             user_format = self.format_row(row)
             if user_format == "":
-                indent_str = space[1:row.level * knobs.indent]
+                indent_str = space[1:row.level * knobs.indent + 1]
 
                 # Name (id)
                 if knobs.identifier:
-- 
2.43.0


From 7ddcbe3fd1ffa1219a7b48fb476ef724edb27a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 132/132] fix: the name of an array element could not be
 printed

---
 src/uvm/base/uvm_printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index f359fbf..bb3d1c6 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -445,8 +445,8 @@ class UVMPrinter():
             index:
             name:
         """
-        res = "{}".index
-        res = name + "[" + res + "]"
+        res = "{}".format(index)
+        return name + "[" + res + "]"
 
 #------------------------------------------------------------------------------
 #
-- 
2.43.0

