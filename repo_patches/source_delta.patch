From f17128a2d1acfd782ae8da52833d490111c98751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:20 +0000
Subject: [PATCH 01/44] fix: keep room for the fragment header after the
 envelope size is negotiated

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..70f45f8 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -843,7 +843,8 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
+            # take away the fragment header size, like Fragmenter.__init__ does
+            self._fragmenter.max_size = self.connection.max_payload_size - 21
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From a5ce72aaa69e167ad54448f0b3e80a095364e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:10 +0000
Subject: [PATCH 02/44] fix: decode only real _xHHHH_ escapes, on characters
 instead of UTF-16 bytes

---
 src/pypsrp/serializer.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..7886976 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -64,10 +64,8 @@ class Serializer(object):
         # encode according to the PSRP rules
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # matches a UTF-16 code unit that was encoded according to the PSRP rules
+        self._deserial_str = re.compile("_x([0-9a-fA-F]{4})_")
 
     def serialize(
         self,
@@ -767,24 +765,12 @@ class Serializer(object):
             return ""
 
         def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+            return chr(int(matchobj.group(1), 16))
+
+        # each match is a single UTF-16 code unit, a character outside of the
+        # BMP is sent as 2 of them so join the surrogate pairs afterwards
+        unicode_value = re.sub(self._deserial_str, rplcr, to_unicode(value))
+        return unicode_value.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From e573819b4f3eae2ac386b943d57cd6baa8080dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:15 +0000
Subject: [PATCH 03/44] fix: read back an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 7886976..5a13c4f 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -210,7 +210,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From 17b4c62de52caf77e5d4767c33314e119e4876f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:45 +0000
Subject: [PATCH 04/44] fix: keep the caller's queue and stack and the kind of
 each of their entries when serializing

---
 src/pypsrp/serializer.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 5a13c4f..bf73c19 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -478,14 +478,20 @@ class Serializer(object):
             metadata = QueueMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
+        # drain a copy so that the caller's queue is left as it was
+        pending = type(values)()
+        pending.queue = copy(values.queue)
+
         que = ET.SubElement(obj, "QUE")
         while True:
             try:
-                value = values.get(block=False)
-                self.serialize(value, metadata.list_value_meta, parent=que, clear=False)
+                value = pending.get(block=False)
             except Empty:
                 break
 
+            entry_meta = copy(metadata.list_value_meta)
+            self.serialize(value, entry_meta, parent=que, clear=False)
+
         return obj
 
     def _serialize_stk(
@@ -494,15 +500,14 @@ class Serializer(object):
         values: typing.List,
     ) -> ET.Element:
         obj = ET.Element("Obj", RefId=self._get_obj_id())
+        if not isinstance(metadata, StackMeta):
+            metadata = StackMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
         stk = ET.SubElement(obj, "STK")
-        while True:
-            try:
-                value = values.pop()
-                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
-            except IndexError:
-                break
+        for value in reversed(values):
+            entry_meta = copy(metadata.list_value_meta)
+            self.serialize(value, entry_meta, parent=stk, clear=False)
 
         return obj
 
-- 
2.43.0


From 07f8b5829b9c571dc6cb70a337619eb7eb7bd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:56 +0000
Subject: [PATCH 05/44] fix: deserialize the entries of an Object[] by their
 own type

---
 src/pypsrp/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index bf73c19..8f250c0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -333,7 +333,10 @@ class Serializer(object):
                 obj_meta = structures.get(obj_type)
                 if obj_meta is not None:
                     metadata = obj_meta
-                    if is_list:
+                    if is_list and obj_type == "System.Object":
+                        # the entries can be anything, go by their own types
+                        metadata = ListMeta()
+                    elif is_list:
                         metadata = ListMeta(list_value_meta=metadata)
                     break
 
-- 
2.43.0


From e052547b6a5f165c6f6250b682db90acb0b19945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:10 +0000
Subject: [PATCH 06/44] fix: only reuse the type names of an object with the
 same type names

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 8f250c0..6db9684 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -829,12 +829,12 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        tn_key = tuple(types)
+        ref_id = self.tn.get(tn_key, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[tn_key] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From abb117d1947341eab9e6b69c3e33557510663531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:22 +0000
Subject: [PATCH 07/44] fix: keep the property name on a reference to an object
 sent before

---
 src/pypsrp/serializer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 6db9684..3eed812 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -849,16 +849,17 @@ class Serializer(object):
         key: typing.Optional[str] = None,
         meta: typing.Optional[ObjectMeta] = None,
     ) -> None:
+        if meta is None:
+            meta = ObjectMeta(name=key)
+
         if isinstance(obj, ComplexObject):
             for ref, value in self.obj.items():
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
-                    if key is not None:
-                        sub_element.attrib["N"] = key
+                    if meta.name is not None:
+                        sub_element.attrib["N"] = meta.name
                     return
 
-        if meta is None:
-            meta = ObjectMeta(name=key)
         self.serialize(obj, metadata=meta, parent=parent, clear=False)
 
 
-- 
2.43.0


From 23e31bcb0dd1c1eab24f57ad74a3f94d58fb18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:32 +0000
Subject: [PATCH 08/44] fix: escape property names like text

---
 src/pypsrp/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 3eed812..f87945a 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -156,7 +156,7 @@ class Serializer(object):
                 element = element_value
 
         if metadata.name is not None:
-            element.attrib["N"] = metadata.name
+            element.attrib["N"] = self._serialize_string(metadata.name)
 
         if parent is not None:
             parent.append(element)
@@ -687,12 +687,12 @@ class Serializer(object):
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
@@ -857,7 +857,7 @@ class Serializer(object):
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
                     if meta.name is not None:
-                        sub_element.attrib["N"] = meta.name
+                        sub_element.attrib["N"] = self._serialize_string(meta.name)
                     return
 
         self.serialize(obj, metadata=meta, parent=parent, clear=False)
-- 
2.43.0


From ce27583c1e0524ead64ef7ea2c3a2a1ee19fd376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:03:10 +0000
Subject: [PATCH 09/44] fix: do not mark the last command of a pipeline as the
 end of its statement

---
 src/pypsrp/complex_objects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..3eb297d 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,14 +509,15 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
-        for command in self.commands:
+        last_idx = len(self.commands) - 1
+        for idx, command in enumerate(self.commands):
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
             # whereas this will create a copy of the statement for each parent
             current_statement.append(deepcopy(command))
-            if command.end_of_statement:
+            # the last command is always the end of a statement, it isn't marked
+            # as such as more commands can be added to the pipeline later on
+            if command.end_of_statement or idx == last_idx:
                 statements.append(current_statement)
                 current_statement = []
 
-- 
2.43.0


From d4fbe7a1724c94cfa1ba095056131b8651493ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:14 +0000
Subject: [PATCH 10/44] fix: exchange the keys when the server asks for the
 public key

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 70f45f8..c9e57ad 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -751,7 +751,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From ef1e3d5dbbcb146e2dd9758b5809af48aa715d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:23 +0000
Subject: [PATCH 11/44] fix: wait for the session key until the session key
 timeout

---
 src/pypsrp/powershell.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index c9e57ad..347f21e 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -608,7 +608,14 @@ class RunspacePool(object):
             elapsed = int((time.time() - start) * 1000)
             if elapsed > self.session_key_timeout_ms:
                 raise InvalidPSRPOperation("Timeout while waiting for key exchange")
-            self._receive()
+
+            try:
+                self._receive()
+            except WSManFaultError as err:
+                # the operation timeout means there was nothing to receive
+                # yet, keep on waiting until our own timeout
+                if err.code != 2150858793:
+                    raise
 
     def reset_runspace_state(self) -> None:
         """
-- 
2.43.0


From 3d32bd9c75cd668a8af83082aef435cebce9365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:35 +0000
Subject: [PATCH 12/44] fix: stop and connect to a pipeline by the command id
 the server gave it

---
 src/pypsrp/powershell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 347f21e..2389022 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1165,7 +1165,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
@@ -1519,7 +1519,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or self.id)
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From b30013d1d2c55583eb5c9be88c314a834849a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:43 +0000
Subject: [PATCH 13/44] fix: only disconnect the running pipelines of a pool

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 2389022..009ee29 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -380,7 +380,8 @@ class RunspacePool(object):
         self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
         self.state = RunspacePoolState.DISCONNECTED
         for pipeline in self.pipelines.values():
-            pipeline.state = PSInvocationState.DISCONNECTED
+            if pipeline.state == PSInvocationState.RUNNING:
+                pipeline.state = PSInvocationState.DISCONNECTED
 
     def get_available_runspaces(self) -> int:
         """
-- 
2.43.0


From 8cea39b48fa71ecc28ad6b76ee911f056ac90578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:52 +0000
Subject: [PATCH 14/44] fix: leave a pipeline running when stopping it fails

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 009ee29..ec82a62 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1520,7 +1520,12 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or self.id)
+        try:
+            self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or self.id)
+        except Exception:
+            # still running, so that stopping it can be tried again
+            self.state = PSInvocationState.RUNNING
+            raise
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From 2dee06b9bb1558df53f5ac39196c327d3862088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 15/44] fix: send every pipeline input and always its end

---
 src/pypsrp/powershell.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index ec82a62..fe2959e 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1238,7 +1238,7 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        no_input = input is None
         apartment_state = apartment_state or self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
@@ -1269,24 +1269,29 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
-                if not isinstance(next_input, list):
-                    next_input = [next_input]
+            end_of_input = object()
+            next_input = next(input, end_of_input)
+            while True:
+                input_msgs: typing.List[ComplexObject] = []
 
-                input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
+                if next_input is not end_of_input:
+                    if not isinstance(next_input, list):
+                        next_input = [next_input]
 
-                try:
-                    next_input = next(input)
-                except StopIteration:
+                    input_msgs.extend(PipelineInput(data=d) for d in next_input)
+                    next_input = next(input, end_of_input)
+
+                if next_input is end_of_input:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
                 for fragment in fragments:
                     self.runspace_pool.shell.send("stdin", fragment, command_id=self._command_id)
 
+                if next_input is end_of_input:
+                    break
+
     def end_invoke(self) -> typing.List:
         """
         Wait until the asynchronous command has finished executing and return
-- 
2.43.0


From 30d403c44ec36c498a56209d6bce7d8b5d97140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:13 +0000
Subject: [PATCH 16/44] fix: do not take the number of available runspaces for
 the maximum

---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index fe2959e..7c760bf 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -392,7 +392,6 @@ class RunspacePool(object):
         """
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From fde2804cefff767e30023dd5dd69f746a727cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:22 +0000
Subject: [PATCH 17/44] fix: set the IETF language tag of a CultureInfo

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 3eb297d..89d23ab 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1615,7 +1615,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From 9647c63ae1c2fda82aa4cfc93e591770214f3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 18/44] fix: give the elements of a received array before its
 nested lists were asked for

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 89d23ab..41a42c7 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1465,7 +1465,7 @@ class Array(ComplexObject):
     def mae(self):
         # elements of the array are flattened into a list and ordered by first
         # listing the deepest elements
-        mae = self._get_list_entries(self._array)
+        mae = self._get_list_entries(self.array)
         return mae
 
     @mae.setter
-- 
2.43.0


From 4275c15a9334422cbcfedecd096272f025cd02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:35 +0000
Subject: [PATCH 19/44] fix: find the boundary of an encrypted response
 wherever it is in the content type

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..a072d06 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -910,7 +910,7 @@ class _TransportHTTP(object):
 
         content_type = response.headers.get("content-type", "")
         if content_type.startswith("multipart/encrypted;") or content_type.startswith("multipart/x-multi-encrypted;"):
-            boundary = re.search("boundary=[" '|\\"](.*)[' '|\\"]', response.headers["content-type"]).group(1)  # type: ignore[union-attr] # This should not happen
+            boundary = re.search('boundary="?([^";]+)', content_type).group(1)  # type: ignore[union-attr] # This should not happen
             response_content = self.encryption.unwrap_message(response.content, to_unicode(boundary))  # type: ignore[union-attr] # This should not happen
             response_text = to_string(response_content)
         else:
-- 
2.43.0


From 0592a9fd65b0b47c48c2d160b6603aa1084d1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:43 +0000
Subject: [PATCH 20/44] fix: match the boundary of an encrypted response
 literally at its end

---
 src/pypsrp/encryption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/encryption.py b/src/pypsrp/encryption.py
index 1442a0a..52fc3ce 100644
--- a/src/pypsrp/encryption.py
+++ b/src/pypsrp/encryption.py
@@ -55,7 +55,7 @@ class WinRMEncryption(object):
             expected_length = int(header.split(b"Length=")[1])
 
             # remove the end MIME block if it exists
-            payload = re.sub(to_bytes(r"--\s*%s--\r\n$") % to_bytes(boundary), b"", payload)
+            payload = re.sub(to_bytes(r"--\s*%s--\r\n$" % re.escape(boundary)), b"", payload)
 
             wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"")
             header_length = struct.unpack("<i", wrapped_data[:4])[0]
-- 
2.43.0


From a6cc3479be3d22bfe04222161094cfeb637ba623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:05 +0000
Subject: [PATCH 21/44] fix: set up message encryption anew after a request
 that timed out for good

---
 src/pypsrp/wsman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index a072d06..7817505 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -888,13 +888,13 @@ class _TransportHTTP(object):
                 )
             except (requests.ReadTimeout, requests.ConnectTimeout) as e:
                 log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
-                if attempt == retries_on_read_timeout:
-                    raise
-
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
 
+                if attempt == retries_on_read_timeout:
+                    raise
+
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
 
-- 
2.43.0


From 5202b00b1f599c1559099c9e2f7d78390b54a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:36 +0000
Subject: [PATCH 22/44] fix: report an error response that is XML but no fault
 as transport error

---
 src/pypsrp/wsman.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 7817505..55d8e56 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -632,6 +632,9 @@ class WSMan(object):
         provider_fault = None
 
         fault = xml.find("s:Body/s:Fault", namespaces=NAMESPACES)
+        if fault is None:
+            raise ET.ParseError("The response is not a SOAP fault")
+
         if fault is not None:
             code_info = fault.find("s:Code/s:Subcode/s:Value", namespaces=NAMESPACES)
             if code_info is not None:
-- 
2.43.0


From df3b175306acd9c8acb1cf4ce70870f016084a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:52:06 +0000
Subject: [PATCH 23/44] fix: keep the idle timeout of a shell that is opened
 again

---
 src/pypsrp/shell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a8f446e..d33b1d3 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -182,7 +182,12 @@ class WinRS(object):
                 ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)
 
         if self.idle_time_out is not None:
-            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = "PT%sS" % str(self.idle_time_out)
+            # The server returns the timeout as a duration, do not format it
+            # again if the shell is opened another time.
+            idle_time_out = str(self.idle_time_out)
+            if not idle_time_out.startswith("P"):
+                idle_time_out = "PT%sS" % idle_time_out
+            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
         if self.lifetime is not None:
             ET.SubElement(shell, "{%s}Lifetime" % rsp).text = "PT%sS" % self.lifetime
-- 
2.43.0


From dfeda6f82a786413391616d5076658251834ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:13:59 +0000
Subject: [PATCH 24/44] fix: write a fetched file completely

---
 src/pypsrp/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..a5b1aae 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -273,7 +273,9 @@ class Client(object):
             temp_file, path = tempfile.mkstemp()
             try:
                 file_bytes = base64.b64decode(powershell.output[0])
-                os.write(temp_file, file_bytes)
+                # os.write may write less than it was given
+                with os.fdopen(temp_file, "wb", closefd=False) as temp_fd:
+                    temp_fd.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
-- 
2.43.0


From 0f5e99640354fbed91c901cfc3e3a036fcf174ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:36 +0000
Subject: [PATCH 25/44] fix: take CLIXML given as bytes apart as text

---
 src/pypsrp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index a5b1aae..14e5986 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -310,7 +310,7 @@ class Client(object):
         output = to_unicode(clixml)
         if output.startswith("#< CLIXML"):
             # Strip off the '#< CLIXML\r\n' by finding the 2nd index of '<'
-            output = output[clixml.index("<", 2) :]
+            output = output[output.index("<", 2) :]
             element = ET.fromstring(output)
             namespace = element.tag.replace("Objs", "")[1:-1]
 
-- 
2.43.0


From 68ce75044957f938846cc746fc8932ad45be3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:44 +0000
Subject: [PATCH 26/44] fix: decode every line of CLIXML errors by itself

---
 src/pypsrp/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 14e5986..40bb7a2 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -314,11 +314,12 @@ class Client(object):
             element = ET.fromstring(output)
             namespace = element.tag.replace("Objs", "")[1:-1]
 
+            serializer = Serializer()
             errors: typing.List[str] = []
             for error in element.findall("{%s}S[@S='Error']" % namespace):
-                errors.append(error.text or "")
+                errors.append(serializer._deserialize_string(error.text or ""))
 
-            output = Serializer()._deserialize_string("".join(errors))
+            output = "".join(errors)
 
         return output
 
-- 
2.43.0


From 543385ee677876c8a4fde73d7defd55db0e8ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:34 +0000
Subject: [PATCH 27/44] fix: direct requests for a pool that was found at its
 shell

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 7c760bf..ade7db4 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -510,6 +510,7 @@ class RunspacePool(object):
             selector_set = SelectorSet()
             selector_set.add_option("ShellId", shell_id)
             filter.append(selector_set.pack())
+            pool.shell._selector_set = selector_set
 
             resp = connection.enumerate("http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command", enum_msg)
             commands = resp.findall("wsen:EnumerateResponse/wsman:Items/rsp:Command", NAMESPACES)
-- 
2.43.0


From d68fd86b431e2c5d0d14b6836fd0aa3f48e3b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:48:09 +0000
Subject: [PATCH 28/44] fix: treat a pool that does not answer in time as not
 alive

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index ade7db4..1e0c86a 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -706,7 +706,12 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.Timeout,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From bf6a7bb6e405122e59764ed8e722d5eab8dbcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:26:06 +0000
Subject: [PATCH 29/44] fix: take over the configuration of the shells found
 and skip those that are no Runspace Pool

---
 src/pypsrp/powershell.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1e0c86a..86cfeb1 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -491,6 +491,15 @@ class RunspacePool(object):
         for shell in shells:
             shell_id: str = shell.find("rsp:ShellId", NAMESPACES).text  # type: ignore # Mandated by spec
             pool = RunspacePool(connection)
+
+            # the shell can be of another configuration than the default one
+            # or no Runspace Pool at all, like the ones opened by WinRS
+            resource_uri = shell.findtext("rsp:ResourceUri", namespaces=NAMESPACES)
+            if resource_uri:
+                if not resource_uri.lower().startswith("http://schemas.microsoft.com/powershell/"):
+                    continue
+                pool.shell.resource_uri = resource_uri
+
             pool.id = shell_id
             pool.shell.id = shell_id
             pool.shell.opened = True
-- 
2.43.0


From 18daabef5943f0a1b7a9e83ec17fbeab6971ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:27:47 +0000
Subject: [PATCH 30/44] fix: let a key exchange that failed be tried again

---
 src/pypsrp/powershell.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 86cfeb1..98c6ccd 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -177,6 +177,7 @@ class RunspacePool(object):
         self._serializer = Serializer()
         self._fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
         self._exchange_key: typing.Optional[rsa.RSAPrivateKeyWithSerialization] = None
+        self._exchanging_keys = False
         self._key_exchanged = False
         self._new_client = False
         self._ci_counter = 0
@@ -587,16 +588,26 @@ class RunspacePool(object):
         happen.
         """
         log.info("Starting key exchange with remote host")
-        if self._key_exchanged or self._exchange_key is not None:
+        if self._key_exchanged or self._exchanging_keys:
             # key is already exchanged or we are still in the processes of
             # exchanging it, no need to run again
             return
 
-        # Generate a unique RSA key pair for use in this Pool only
-        self._exchange_key = rsa.generate_private_key(
-            public_exponent=65537,
-            key_size=2048,
-        )
+        self._exchanging_keys = True
+        try:
+            self._exchange_session_key()
+        finally:
+            # if the exchange failed it can be tried again
+            self._exchanging_keys = False
+
+    def _exchange_session_key(self) -> None:
+        # Generate a unique RSA key pair for use in this Pool only, it is kept
+        # until the session key has come as that may be late
+        if self._exchange_key is None:
+            self._exchange_key = rsa.generate_private_key(
+                public_exponent=65537,
+                key_size=2048,
+            )
         public_numbers = self._exchange_key.public_key().public_numbers()
         exponent = struct.pack("<I", public_numbers.e)
         modulus = b""
@@ -931,12 +942,16 @@ class RunspacePool(object):
         key_msg = typing.cast(EncryptedSessionKey, message.data)
 
         log.debug("Received EncryptedSessionKey response")
+        if self._exchange_key is None:
+            # the key was sent again, there is only one for the pool
+            return
+
         enc_sess_key = base64.b64decode(key_msg.session_key)
 
         # strip off Win32 Crypto Blob Header and reverse the bytes
         encrypted_key = enc_sess_key[12:][::-1]
         pad_method = padding.PKCS1v15()
-        decrypted_key = self._exchange_key.decrypt(encrypted_key, pad_method)  # type: ignore[union-attr] # Will be set
+        decrypted_key = self._exchange_key.decrypt(encrypted_key, pad_method)
 
         iv = b"\x00" * 16  # PSRP doesn't use an IV
         algorithm = algorithms.AES(decrypted_key)
-- 
2.43.0


From 6bf582a6e227f4e6ef54b74edc0219b66d8db8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:27 +0000
Subject: [PATCH 31/44] fix: wait on when the server takes longer than the
 operation timeout to answer

---
 src/pypsrp/powershell.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 98c6ccd..031f145 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -227,7 +227,7 @@ class RunspacePool(object):
         self.shell.send("stdin", data)
 
         while not isinstance(self.ci_table[ci], bool):
-            self._receive()
+            self._receive_next()
         self._min_runspaces = min_runspaces
         del self.ci_table[ci]
 
@@ -268,7 +268,7 @@ class RunspacePool(object):
         self.shell.send("stdin", data)
 
         while not isinstance(self.ci_table[ci], bool):
-            self._receive()
+            self._receive_next()
         self._max_runspaces = max_runspaces
         del self.ci_table[ci]
 
@@ -405,7 +405,7 @@ class RunspacePool(object):
 
         avail_runspaces = None
         while avail_runspaces is None:
-            self._receive()
+            self._receive_next()
             if isinstance(self.ci_table[ci], int):
                 avail_runspaces = self.ci_table[ci]
 
@@ -578,7 +578,7 @@ class RunspacePool(object):
 
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
-            responses.extend(self._receive())
+            responses.extend(self._receive_next())
 
     def exchange_keys(self) -> None:
         """
@@ -631,7 +631,7 @@ class RunspacePool(object):
                 raise InvalidPSRPOperation("Timeout while waiting for key exchange")
 
             try:
-                self._receive()
+                self._receive_next()
             except WSManFaultError as err:
                 # the operation timeout means there was nothing to receive
                 # yet, keep on waiting until our own timeout
@@ -674,7 +674,7 @@ class RunspacePool(object):
         self.shell.send("stdin", data)
 
         while not isinstance(self.ci_table[ci], bool):
-            self._receive()
+            self._receive_next()
         del self.ci_table[ci]
 
     def serialize(
@@ -772,6 +772,19 @@ class RunspacePool(object):
         response = self.shell.receive("stdout", command_id=command_id, timeout=timeout)[2]["stdout"]
         return self._parse_responses(response, pipeline)
 
+    def _receive_next(self) -> typing.List[typing.Tuple[int, typing.Any]]:
+        """
+        Used when waiting for something the server is still to say. The
+        operation timeout means there was nothing to receive yet and the
+        caller is to keep on waiting.
+        """
+        try:
+            return self._receive()
+        except WSManFaultError as err:
+            if err.code != 2150858793:
+                raise
+            return []
+
     def _parse_responses(
         self,
         responses: bytes,
-- 
2.43.0


From 77b87b32339f472eb74c07e9a0631288ed1518fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:36 +0000
Subject: [PATCH 32/44] fix: take the answer of the server only for the request
 it belongs to

---
 src/pypsrp/powershell.py | 100 +++++++++++++++------------------------
 1 file changed, 38 insertions(+), 62 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 031f145..bb010b0 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -213,23 +213,13 @@ class RunspacePool(object):
         elif min_runspaces == self._min_runspaces:
             return
 
-        def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set minimum runspaces")
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         set_min_runspace = SetMinRunspaces(min_runspaces=min_runspaces, ci=ci)
-        data = self._fragmenter.fragment(set_min_runspace, self.id)[0]
-        self.shell.send("stdin", data)
-
-        while not isinstance(self.ci_table[ci], bool):
-            self._receive_next()
+        if not self._send_and_wait(set_min_runspace, ci):
+            raise InvalidPSRPOperation("Failed to set minimum runspaces")
         self._min_runspaces = min_runspaces
-        del self.ci_table[ci]
 
     @property
     def max_runspaces(self) -> int:
@@ -254,23 +244,13 @@ class RunspacePool(object):
         elif max_runspaces == self._max_runspaces:
             return
 
-        def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set maximum runspaces")
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         set_max_runspace = SetMaxRunspaces(max_runspaces=max_runspaces, ci=ci)
-        data = self._fragmenter.fragment(set_max_runspace, self.id)[0]
-        self.shell.send("stdin", data)
-
-        while not isinstance(self.ci_table[ci], bool):
-            self._receive_next()
+        if not self._send_and_wait(set_max_runspace, ci):
+            raise InvalidPSRPOperation("Failed to set maximum runspaces")
         self._max_runspaces = max_runspaces
-        del self.ci_table[ci]
 
     def __enter__(self) -> "RunspacePool":
         self.open()
@@ -392,25 +372,11 @@ class RunspacePool(object):
         :return: The number of available runspaces in the pool
         """
 
-        def response_handler(response):
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         get_runspaces = GetAvailableRunspaces(ci=ci)
-        data = self._fragmenter.fragment(get_runspaces, self.id)[0]
-        self.shell.send("stdin", data)
-
-        avail_runspaces = None
-        while avail_runspaces is None:
-            self._receive_next()
-            if isinstance(self.ci_table[ci], int):
-                avail_runspaces = self.ci_table[ci]
-
-        del self.ci_table[ci]
-        return avail_runspaces
+        return self._send_and_wait(get_runspaces, ci)
 
     def get_command_metadata(
         self,
@@ -630,13 +596,7 @@ class RunspacePool(object):
             if elapsed > self.session_key_timeout_ms:
                 raise InvalidPSRPOperation("Timeout while waiting for key exchange")
 
-            try:
-                self._receive_next()
-            except WSManFaultError as err:
-                # the operation timeout means there was nothing to receive
-                # yet, keep on waiting until our own timeout
-                if err.code != 2150858793:
-                    raise
+            self._receive_next()
 
     def reset_runspace_state(self) -> None:
         """
@@ -660,22 +620,12 @@ class RunspacePool(object):
                 "actual: %s" % self.protocol_version
             )
 
-        def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to reset runspace state")
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         reset_state = ResetRunspaceState(ci=ci)
-        data = self._fragmenter.fragment(reset_state, self.id)[0]
-        self.shell.send("stdin", data)
-
-        while not isinstance(self.ci_table[ci], bool):
-            self._receive_next()
-        del self.ci_table[ci]
+        if not self._send_and_wait(reset_state, ci):
+            raise InvalidPSRPOperation("Failed to reset runspace state")
 
     def serialize(
         self,
@@ -772,6 +722,32 @@ class RunspacePool(object):
         response = self.shell.receive("stdout", command_id=command_id, timeout=timeout)[2]["stdout"]
         return self._parse_responses(response, pipeline)
 
+    def _send_and_wait(
+        self,
+        message: ComplexObject,
+        ci: int,
+    ) -> typing.Any:
+        """
+        Sends the message and waits for the RunspaceAvailability that has the
+        same call ID.
+
+        :param message: The message to send
+        :param ci: The call ID of the message
+        :return: The response of the server
+        """
+        pending = object()
+        self.ci_table[ci] = pending
+        try:
+            data = self._fragmenter.fragment(message, self.id)[0]
+            self.shell.send("stdin", data)
+
+            while self.ci_table[ci] is pending:
+                self._receive_next()
+            return self.ci_table[ci]
+        finally:
+            # the answer to a request that failed can still come
+            del self.ci_table[ci]
+
     def _receive_next(self) -> typing.List[typing.Tuple[int, typing.Any]]:
         """
         Used when waiting for something the server is still to say. The
@@ -911,11 +887,11 @@ class RunspacePool(object):
     ) -> ComplexObject:
         msg = typing.cast(RunspaceAvailability, message.data)
 
-        ci = msg.ci
         response = msg.response
-        ci_handler = self.ci_table[ci]
-        response = ci_handler(response)
-        self.ci_table[ci] = response
+        if msg.ci in self.ci_table:
+            self.ci_table[msg.ci] = response
+        else:
+            log.debug("Received RunspaceAvailability for a request that is no longer waited for: %s" % msg.ci)
         return response
 
     def _process_runspacepool_host_call(
-- 
2.43.0


From ea271e7504cda2fd9735d9db4119070b4cc4c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:51:21 +0000
Subject: [PATCH 33/44] fix: wait on when a pool of another client takes longer
 than the operation timeout to tell its state

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index bb010b0..9a96276 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -331,7 +331,8 @@ class RunspacePool(object):
         self._parse_responses(fragments)
         self.shell.id = self.id  # need to sync up the ShellID with the rs ID
         self.shell._selector_set = selectors
-        self._receive()
+        while not self._receive_next():
+            pass
 
     def create_disconnected_power_shells(self) -> typing.List["PowerShell"]:
         """
-- 
2.43.0


From 11645e672c7a08a4b6aa7c36f6a1bafd3b2bb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:28 +0000
Subject: [PATCH 34/44] fix: C09 resolve references to what is told in another
 field or an unknown one

---
 src/pypsrp/serializer.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index f87945a..1154798 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -183,6 +183,9 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
+        if clear:
+            self._register_references(element)
+
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
@@ -218,8 +221,8 @@ class Serializer(object):
             "XD": lambda d: self._deserialize_string(d.text),
             "SBK": lambda d: self._deserialize_string(d.text),
             "SS": lambda d: self._deserialize_secure_string(d),
-            # references an object already deserialized
-            "Ref": lambda d: self.obj[d.attrib["RefId"]],
+            # references an object told elsewhere in the document
+            "Ref": lambda d: self._deserialize_ref(d),
         }.get(element.tag)
 
         if unpack_function is not None:
@@ -796,9 +799,29 @@ class Serializer(object):
 
         return decrypted_string
 
+    def _deserialize_ref(self, element: ET.Element) -> typing.Any:
+        ref_id = element.attrib["RefId"]
+        if ref_id not in self.obj:
+            # the object is in a part of the document that is read later or
+            # not at all, e.g. a property that is not known
+            self.deserialize(self._ref_elements.pop(ref_id), clear=False)
+
+        return self.obj[ref_id]
+
+    def _register_references(self, element: ET.Element) -> None:
+        # the properties of an object are not always read in the order of the
+        # document and the unknown ones are not read at all, so find all that
+        # can be referenced before reading anything
+        for sub_element in element.iter():
+            if sub_element.tag == "TN":
+                self.tn[sub_element.attrib["RefId"]] = [e.text or "" for e in sub_element.findall("T")]
+            elif sub_element.tag == "Obj" and "RefId" in sub_element.attrib:
+                self._ref_elements[sub_element.attrib["RefId"]] = sub_element
+
     def _clear(self) -> None:
         self.obj_id = 0
         self.obj = {}
+        self._ref_elements: typing.Dict[str, ET.Element] = {}
         self.tn = {}
         self.tn_id = 0
 
-- 
2.43.0


From 928819e880097fae417df9858d44afba69ce87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 35/44] fix: C08 give each received object a list of type names
 of its own

---
 src/pypsrp/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 1154798..e6d9b5d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -685,9 +685,9 @@ class Serializer(object):
             if obj_property.tag == "TN":
                 for obj_type in obj_property:
                     obj.types.append(obj_type.text)
-                self.tn[obj_property.attrib["RefId"]] = obj.types
+                self.tn[obj_property.attrib["RefId"]] = list(obj.types)
             elif obj_property.tag == "TNRef":
-                obj.types = self.tn[obj_property.attrib["RefId"]]
+                obj.types = list(self.tn[obj_property.attrib["RefId"]])
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
                     key = self._deserialize_string(adapted_property.attrib["N"])
-- 
2.43.0


From 1fa9b2ee24896c4ebdc572c0f025e5bce97a511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 36/44] fix: C06 send tagged dates

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index e6d9b5d..6268c2f 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -112,7 +112,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From 4cb09ac7e0fba09270900c03c6f6becb30bf148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 37/44] fix: C09 send received and self made records as they
 are

---
 src/pypsrp/complex_objects.py | 18 ++++++++++++------
 src/pypsrp/serializer.py      |  8 +++++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 41a42c7..da4d4a7 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -791,7 +791,6 @@ class ErrorRecord(ComplexObject):
         self._extended_properties = (
             ("exception", ObjectMeta(name="Exception", optional=True)),
             ("target_object", ObjectMeta(name="TargetObject", optional=True)),
-            ("invocation", ObjectMeta("B", name="SerializeExtendedInfo")),
             (
                 "invocation_info",
                 ObjectMeta("ObjDynamic", name="InvocationInfo", object=GenericComplexObject, optional=True),
@@ -857,7 +856,7 @@ class ErrorRecord(ComplexObject):
                     name="InvocationInfo_PipelineIterationInfo",
                     optional=True,
                     list_value_meta=ObjectMeta("I32"),
-                    list_types=["System.In32[]", "System.Array", "System.Object"],
+                    list_types=["System.Int32[]", "System.Array", "System.Object"],
                 ),
             ),
             (
@@ -899,7 +898,8 @@ class ErrorRecord(ComplexObject):
         )
         self.exception = kwargs.get("exception")
         self.target_info = kwargs.get("target_info")
-        self.invocation = kwargs.get("invocation")
+        self.target_object = kwargs.get("target_object")
+        self.invocation_info = kwargs.get("invocation_info")
         self.fq_error = kwargs.get("fq_error")
         self.category = kwargs.get("category")
         self.activity = kwargs.get("activity")
@@ -909,6 +909,7 @@ class ErrorRecord(ComplexObject):
         self.message = kwargs.get("message")
         self.details_message = kwargs.get("details_message")
         self.action = kwargs.get("action")
+        self.script_stacktrace = kwargs.get("script_stacktrace")
         self.pipeline_iteration_info = kwargs.get("pipeline_iteration_info")
         self.invocation_name = kwargs.get("invocation_name")
         self.invocation_bound_parameters = kwargs.get("invocation_bound_parameters")
@@ -928,7 +929,12 @@ class ErrorRecord(ComplexObject):
         self.command_definition = kwargs.get("command_definition")
         self.command_name = kwargs.get("command_name")
         self.command_visibility = kwargs.get("command_visibility")
-        self.extended_info_present = self.invocation is not None
+        self.extended_info_present = kwargs.get("invocation") is not None
+
+    @property
+    def invocation(self):
+        # SerializeExtendedInfo is a single field, it must not be sent twice
+        return self.extended_info_present
 
 
 class InformationalRecord(ComplexObject):
@@ -938,7 +944,7 @@ class InformationalRecord(ComplexObject):
         https://msdn.microsoft.com/en-us/library/dd305072.aspx
         """
         super(InformationalRecord, self).__init__()
-        self._types = ["System.Management.Automation.InformationRecord", "System.Object"]
+        self._types = ["System.Management.Automation.InformationalRecord", "System.Object"]
         self._extended_properties = (
             ("message", ObjectMeta("S", name="InformationalRecord_Message")),
             ("invocation", ObjectMeta("B", name="InformationalRecord_SerializeInvocationInfo")),
@@ -992,7 +998,7 @@ class InformationalRecord(ComplexObject):
                     name="InvocationInfo_PipelineIterationInfo",
                     optional=True,
                     list_value_meta=ObjectMeta("I32"),
-                    list_types=["System.In32[]", "System.Array", "System.Object"],
+                    list_types=["System.Int32[]", "System.Array", "System.Object"],
                 ),
             ),
             (
diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 6268c2f..dea9aff 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -100,6 +100,9 @@ class Serializer(object):
 
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
+            # the tag belongs to this value and not to the next one that is
+            # serialized with the same metadata
+            metadata = copy(metadata)
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
                 value = value.value
@@ -565,6 +568,7 @@ class Serializer(object):
             en = ET.SubElement(dct, "En")
             key_meta = copy(metadata.dict_key_meta)
             value_meta = copy(metadata.dict_value_meta)
+            key_meta.name, value_meta.name = "Key", "Value"
             self.serialize(key, key_meta, parent=en, clear=False)
             self.serialize(value, value_meta, parent=en, clear=False)
 
@@ -663,7 +667,9 @@ class Serializer(object):
                         raise SerializationError(err_msg)
                     val = None
                 elif val is not None:
-                    val = self.deserialize(val, property_meta, clear=False)
+                    # the tag found belongs to this value, the object may be
+                    # sent with another one later
+                    val = self.deserialize(val, copy(property_meta), clear=False)
 
                 setattr(obj, attr, val)
 
-- 
2.43.0


From 77afba2e1463eaa4f7879c62eab42e43304ff888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 38/44] fix: C10 an apartment state of STA given for an
 invocation is used

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 9a96276..0e05725 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1258,7 +1258,8 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From 146701473547865f6280ab40c0c4b2cf316d2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 39/44] fix: C22 leave the options given to open a shell as
 they are

---
 src/pypsrp/shell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index d33b1d3..c004fb5 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -201,9 +201,11 @@ class WinRS(object):
         if open_content is not None:
             shell.append(open_content)
 
-        # inherit the base options if it was passed in, otherwise use an empty
-        # option set
-        options = OptionSet() if base_options is None else base_options
+        # inherit the base options if it was passed in, on a copy as the caller
+        # can open another shell with them
+        options = OptionSet()
+        if base_options is not None:
+            options.values.extend(base_options.values)
         if self.no_profile:
             options.add_option("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"})
         if self.codepage is not None:
-- 
2.43.0


From a933193a79b93a406cc820dfa7a232fd3dc96476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 40/44] fix: C06 send an int that does not fit in an Int32 as a
 larger type

---
 src/pypsrp/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index dea9aff..5ddc56d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -384,7 +384,10 @@ class Serializer(object):
 
         value_type = type(value)
         if value_type == int:
-            return "I32"
+            # use a larger type if the value does not fit in an Int32
+            if -(2**31) <= value < 2**31:
+                return "I32"
+            return "I64" if value < 2**63 else "U64"
         elif value_type == bool:
             return "B"
         elif value_type == float:
-- 
2.43.0


From 236ce57bab3dc16a27c1b954cf2941a7098c5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 41/44] fix: fragments follow the connection's payload size
 when it is changed after the pool was made

---
 src/pypsrp/powershell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 0e05725..c319601 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -175,13 +175,20 @@ class RunspacePool(object):
         self._min_runspaces = min_runspaces
         self._max_runspaces = max_runspaces
         self._serializer = Serializer()
-        self._fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
+        self._message_fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
         self._exchange_key: typing.Optional[rsa.RSAPrivateKeyWithSerialization] = None
         self._exchanging_keys = False
         self._key_exchanged = False
         self._new_client = False
         self._ci_counter = 0
 
+    @property
+    def _fragmenter(self) -> "Fragmenter":
+        # The max payload size of the connection can change at any time, take
+        # away the fragment header size, like Fragmenter.__init__ does.
+        self._message_fragmenter.max_size = self.connection.max_payload_size - 21
+        return self._message_fragmenter
+
     @property
     def application_private_data(self) -> typing.Optional[ApplicationPrivateData]:
         """
@@ -866,8 +873,6 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            # take away the fragment header size, like Fragmenter.__init__ does
-            self._fragmenter.max_size = self.connection.max_payload_size - 21
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 21a2a39a82ec68e7436d1b2193e9348eff96b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 42/44] fix: send all fragments of the creation of a
 RunspacePool

---
 src/pypsrp/powershell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index c319601..0b49a0d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -550,6 +550,11 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # the application arguments can need more than the one fragment that
+        # fits in the creation request
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive_next())
-- 
2.43.0


From 901f540dd29570df08ad628e0a9371c74a857c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 43/44] fix: arrays without elements keep their dimensions

---
 src/pypsrp/complex_objects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index da4d4a7..21dfe26 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1491,13 +1491,15 @@ class Array(ComplexObject):
         values = []
 
         length = mal.pop(-1)
-        while True:
+        count = 1
+        for outer_length in mal:
+            count *= outer_length
+
+        while len(values) < count:
             entry = []
             for i in range(0, length):
                 entry.append(mae.pop(0))
             values.append(entry)
-            if len(mae) == 0:
-                break
 
         if len(mal) == 0:
             values = values[0]
@@ -1523,7 +1525,7 @@ class Array(ComplexObject):
         while True:
             if isinstance(current_entry, list):
                 count.append(len(current_entry))
-                current_entry = current_entry[0]
+                current_entry = current_entry[0] if current_entry else None
             else:
                 break
 
-- 
2.43.0


From d3252a093d6cbb1532737b2ccdbe92ea92714d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 44/44] fix: requests stay within the envelope size with long
 configuration names and shell options

---
 src/pypsrp/powershell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 0b49a0d..f2ba7ae 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -185,8 +185,10 @@ class RunspacePool(object):
     @property
     def _fragmenter(self) -> "Fragmenter":
         # The max payload size of the connection can change at any time, take
-        # away the fragment header size, like Fragmenter.__init__ does.
-        self._message_fragmenter.max_size = self.connection.max_payload_size - 21
+        # away the fragment header size, like Fragmenter.__init__ does. It only
+        # allows for the length of common resource URIs in the WSMan header.
+        long_uri = max(0, len((self.shell.resource_uri or "").encode("utf-8")) - 100)
+        self._message_fragmenter.max_size = self.connection.max_payload_size - 21 - long_uri
         return self._message_fragmenter
 
     @property
@@ -540,7 +542,10 @@ class RunspacePool(object):
             application_arguments,
         )
         msgs = [session_capability, init_runspace_pool]
-        fragments = self._fragmenter.fragment_multiple(msgs, self.id)
+        # the options of the shell are also part of the creation request
+        fragmenter = self._fragmenter
+        fragmenter.max_size -= 200
+        fragments = fragmenter.fragment_multiple(msgs, self.id)
 
         open_content = ET.Element("creationXml", xmlns="http://schemas.microsoft.com/powershell")
         open_content.text = base64.b64encode(fragments.pop(0)).decode("utf-8")
-- 
2.43.0

