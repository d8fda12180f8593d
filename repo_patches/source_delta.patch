From 42145226c4ff67bca7457474a4d4f4c4c376a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 01/18] fix: only build sessions with the identity key known
 (and trusted) for the device

encrypt and replace_sessions built new sessions from whatever bundle was
downloaded, without comparing its identity key to the identity key that is
known for the device and that the trust decision was made on.
---
 omemo/session_manager.py | 60 ++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..c6765e0 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1235,15 +1235,25 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    # Only build a new session with the identity key known for the device, since that is the
+                    # identity key trust is assigned to
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    if bundle.identity_key != device.identity_key:
+                        raise PublicDataInconsistency(
+                            "The identity key in the bundle does not match the identity key known for the"
+                            " device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1895,20 +1905,34 @@ class SessionManager(ABC):
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Cached bundle: {bundle}")
 
                 try:
-                    # Build the session if necessary, and encrypt the key material
-                    session, encrypted_key_material = await backend.build_session_active(
-                        device.bare_jid,
-                        device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
+                    if session is None:
+                        # Build the session if necessary, and encrypt the key material
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # The trust decision was made on the identity key known for this device. Make sure
+                        # that the session is built with that very identity key.
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key in the bundle does not match the identity key known for the"
+                                " recipient device."
+                            )
+
+                        session, encrypted_key_material = await backend.build_session_active(
                             device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
-                        plain_key_material
-                    ) if session is None else (session, await backend.encrypt_key_material(
-                        session,
-                        plain_key_material
-                    ))
+                            device.device_id,
+                            bundle,
+                            plain_key_material
+                        )
+                    else:
+                        encrypted_key_material = await backend.encrypt_key_material(
+                            session,
+                            plain_key_material
+                        )
                 except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                     # Those failures are non-critical, i.e. encryption for other devices is still performed
                     # and the errors are simply collected and returned.
-- 
2.43.0


From 9aec8ea442f8e36623ec9b00e1379b1910b61198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 02/18] fix: allow configuring the per-message skipped message
 key limit

Due to operator precedence, every nonzero per-message limit was refused.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From 3a00a26938553e0aef7e5ebec3375fde10bd7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 03/18] fix: persist the session before sending an empty
 message

A crash or failure between sending the message and storing the session led to
the same message key being used for the next message, too.
---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c6765e0..eda45d7 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1648,6 +1648,11 @@ class SessionManager(ABC):
 
         content, plain_key_material = await backend.encrypt_empty()
         encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)
+
+        # Persist the session before the message leaves the library, otherwise the same message key could be
+        # used again for a different message after a crash.
+        await backend.store_session(session)
+
         await self._send_message(Message(
             backend.namespace,
             self.__own_bare_jid,
@@ -1659,7 +1664,6 @@ class SessionManager(ABC):
                 else None
             )) })
         ), session.bare_jid)
-        await backend.store_session(session)
 
     async def encrypt(
         self,
-- 
2.43.0


From e0a9324ec553444a287537bcf05f17149bdfc12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 04/18] fix: signed pre key rotation: back off exponentially,
 leave purged backends alone

The retry delay was reset to one minute before each attempt. A backend that was
purged while the rotation was waiting got its bundle republished.
---
 omemo/session_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index eda45d7..a6c0293 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -665,6 +665,10 @@ class SessionManager(ABC):
 
             # For each backend, check whether the signed pre key is due for rotation
             for backend in self.__backends:
+                # The backend may have been purged while waiting
+                if backend not in self.__backends:
+                    continue
+
                 signed_pre_key_age = await backend.signed_pre_key_age()
                 next_rotation = signed_pre_key_rotation_period - signed_pre_key_age
 
@@ -676,8 +680,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
-                    while True:
-                        retry_delay = 60  # Start with one minute of retry delay
+                    retry_delay = 60  # Start with one minute of retry delay
+                    while backend in self.__backends:
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From de2655948290cec010008966d1691c7446c56e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 05/18] fix: keep empty messages queued until they were sent

after_history_sync deleted the whole queue before sending, such that all remaining
empty messages were lost if sending one of them failed.
---
 omemo/session_manager.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index a6c0293..eec8640 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1595,9 +1595,8 @@ class SessionManager(ABC):
 
         # Send empty messages that were queued while in history synchronization mode
         for backend in self.__backends:
-            # Load and delete the list of bare JIDs that have queued empty messages for this backend
+            # Load the list of bare JIDs that have queued empty messages for this backend
             queued_jids = frozenset((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
-            await storage.delete(f"/queue/{backend.namespace}")
 
             logging.getLogger(SessionManager.LOG_TAG).debug(
                 f"Bare JIDs for which empty messages are queued for namespace {backend.namespace}:"
@@ -1605,13 +1604,12 @@ class SessionManager(ABC):
             )
 
             for bare_jid in queued_jids:
-                # For each queued bare JID, load and delete the list of devices that have queued an empty
-                # message for this backend
+                # For each queued bare JID, load the list of devices that have queued an empty message for
+                # this backend
                 queued_device_ids = frozenset((await storage.load_list(
                     f"/queue/{backend.namespace}/{bare_jid}",
                     int
                 )).maybe([]))
-                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
 
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Queued device ids: {queued_device_ids}")
 
@@ -1627,6 +1625,31 @@ class SessionManager(ABC):
                         # message was queued for it.
                         await self.__send_empty_message(backend, session)
 
+                    # Only remove the device from the queue once the empty message was sent, such that
+                    # nothing is lost if sending fails
+                    remaining_device_ids = set((await storage.load_list(
+                        f"/queue/{backend.namespace}/{bare_jid}",
+                        int
+                    )).maybe([]))
+                    remaining_device_ids.discard(device_id)
+                    await storage.store(
+                        f"/queue/{backend.namespace}/{bare_jid}",
+                        list(remaining_device_ids)
+                    )
+
+                # Remove the bare JID from the queue once there are no devices left
+                if len((await storage.load_list(
+                    f"/queue/{backend.namespace}/{bare_jid}",
+                    int
+                )).maybe([])) == 0:
+                    remaining_jids = set((await storage.load_list(
+                        f"/queue/{backend.namespace}",
+                        str
+                    )).maybe([]))
+                    remaining_jids.discard(bare_jid)
+                    await storage.store(f"/queue/{backend.namespace}", list(remaining_jids))
+                    await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
         logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
 
     ######################
-- 
2.43.0


From 79a6565bfd5d4b64d8f018368017cdcd805de79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 06/18] fix: make purge_bare_jid safe to interrupt and repeat

A purge interrupted by a storage failure or crash left device list entries without
device information behind, breaking every following operation on the account, and
forgot which trust levels to delete.
---
 omemo/session_manager.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index eec8640..5d9cbab 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -598,15 +598,9 @@ class SessionManager(ABC):
             except NothingException:
                 pass
 
-        # Delete information about the individual devices
-        for device_id in device_list:
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
-
-        # Delete the device list
-        await storage.delete(f"/devices/{bare_jid}/list")
+        # The order of the following deletions makes sure that an interrupted purge leaves consistent data
+        # behind and can be repeated: the trust is found via the identity keys, and the identity keys and all
+        # other device information via the device list.
 
         # Delete information about the identity keys
         for identity_key in identity_keys:
@@ -614,6 +608,18 @@ class SessionManager(ABC):
                 f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
             )
 
+        for device_id in device_list:
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
+
+        # Delete the device list
+        await storage.delete(f"/devices/{bare_jid}/list")
+
+        # Delete information about the individual devices
+        for device_id in device_list:
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
+
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From 3065533dd27aadde3a3b713c4def0e6e7728e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 07/18] fix: don't forget devices when device list updates
 overlap

The list of known devices was loaded before waiting for the device list upload, and
written back after it.
---
 omemo/session_manager.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 5d9cbab..91ce1cf 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1031,11 +1031,6 @@ class SessionManager(ABC):
         device_list = dict(device_list)
 
         new_device_list = frozenset(device_list.keys())
-        old_device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
-
-        new_devices = new_device_list - old_device_list
-
-        logging.getLogger(SessionManager.LOG_TAG).debug(f"Old device list: {old_device_list}")
 
         # If the device list is for this JID and a loaded backend, make sure this device is included
         if (
@@ -1054,6 +1049,14 @@ class SessionManager(ABC):
             )).from_just()
             await self._upload_device_list(namespace, device_list)
 
+        # Load the list of known devices only now, since other device list updates could be processed while
+        # waiting for the upload
+        old_device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
+
+        new_devices = new_device_list - old_device_list
+
+        logging.getLogger(SessionManager.LOG_TAG).debug(f"Old device list: {old_device_list}")
+
         # Add new device information entries for new devices
         for device_id in new_devices:
             await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
-- 
2.43.0


From 5f1e4b347597411a5db1ff84c543f5c7bdf73e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 08/18] fix: make create and purge_backend safe to interrupt
 and repeat

The namespaces of this device were stored before the respective backends were
initialized or removed. If anything failed or crashed after that, repeating create
found nothing left to do, leaving the device without pre keys, bundle or device list
entry, or the removed backend's data online. Now a namespace is added as the last
step of the initialization, marked as inactive when its removal starts, and removed
once the removal is complete.
---
 omemo/session_manager.py | 76 +++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 91ce1cf..73d2d8a 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -379,12 +379,12 @@ class SessionManager(ABC):
             # Store the device information for this device
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
+                []
             )
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
+                {}
             )
 
             await storage.store(
@@ -412,47 +412,25 @@ class SessionManager(ABC):
                 undecided_trust_level_name
             )
 
-            # Finally store the device id once the other setup is done
+            # Finally store the device id once the other setup is done. The backends are initialized below,
+            # since this device is not active for any namespace yet.
             await self.__storage.store("/own_device_id", self.__own_device_id)
 
-            # Generate the first 100 pre keys for each backend
-            for backend in self.__backends:
-                await backend.generate_pre_keys(100)
-
-            # Publish the bundles for all backends
-            for backend in self.__backends:
-                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))
-
-            # Trigger a refresh of the own device lists for all backends, this will result in this device
-            # being added to the lists and the lists republished.
-            for backend in self.__backends:
-                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
-
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
-        active_namespaces = device.namespaces
-        if loaded_namespaces != active_namespaces:
+        active_namespaces = frozenset(namespace for namespace, active in device.active if active)
+        if loaded_namespaces != active_namespaces or loaded_namespaces != device.namespaces:
             logging.getLogger(SessionManager.LOG_TAG).info(
                 "The list of backends loaded now differs from the list of backends that were loaded last run:"
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
-            # Take care of the initialization of newly added backends
+            # Take care of the initialization of newly added backends. The namespaces of this device are
+            # updated as part of the device list refresh, i.e. the initialization is repeated if it fails
+            # before that.
             for backend in self.__backends:
-                if backend.namespace not in active_namespaces:
+                if backend.namespace not in active_namespaces & device.namespaces:
                     # Refill pre keys if necessary
                     num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                     if num_visible_pre_keys <= self.__pre_key_refill_threshold:
@@ -469,7 +447,7 @@ class SessionManager(ABC):
                     await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
             # Perform cleanup of removed backends
-            for namespace in active_namespaces - loaded_namespaces:
+            for namespace in (active_namespaces | device.namespaces) - loaded_namespaces:
                 await self.purge_backend(namespace)
 
         # Start signed pre key rotation management "in the background"
@@ -531,22 +509,15 @@ class SessionManager(ABC):
         else:
             await self._upload_device_list(namespace, device_list)
 
-        # Synchronize the offline device list with the online information
-        device, _ = await self.get_own_device_information()
-        active = dict(device.active)
-        active.pop(namespace, None)
-        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))
-        device = device._replace(active=frozenset(active.items()))
-
-        await self.__storage.store(
-            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-            dict(device.active)
-        )
+        # Synchronize the offline device list with the online information. The namespace is only marked
+        # inactive for now, such that the removal is continued later in case it is interrupted.
+        storage = self.__storage
+        device_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
 
-        await self.__storage.store(
-            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-            list(device.namespaces)
-        )
+        active = (await storage.load_dict(f"{device_key}/active", bool)).from_just()
+        if namespace in active:
+            active[namespace] = False
+            await storage.store(f"{device_key}/active", active)
 
         # If the backend is currently loaded, remove it from the list of loaded backends
         purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
@@ -569,6 +540,15 @@ class SessionManager(ABC):
         # thus done last.
         await self._delete_bundle(namespace, self.__own_device_id)
 
+        # Finally forget about the namespace
+        namespaces = set((await storage.load_list(f"{device_key}/namespaces", str)).from_just())
+        namespaces.discard(namespace)
+        await storage.store(f"{device_key}/namespaces", list(namespaces))
+
+        active = (await storage.load_dict(f"{device_key}/active", bool)).from_just()
+        active.pop(namespace, None)
+        await storage.store(f"{device_key}/active", active)
+
         logging.getLogger(SessionManager.LOG_TAG).info(f"Backend {namespace} purged.")
 
     async def purge_bare_jid(self, bare_jid: str) -> None:
-- 
2.43.0


From f05650dfe2a49f42a74e565843d4a68b5bdfa894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 09/18] fix: don't hold on to sessions while waiting for the
 network

encrypt and decrypt kept sessions in memory while downloading or uploading bundles.
Operations running at the same time used the same state of the session, leading to
reused message keys and lost session updates.
---
 omemo/session_manager.py | 41 +++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 73d2d8a..36bf9f9 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1889,6 +1889,32 @@ class SessionManager(ABC):
         #   fetches/key agreements with new devices. Those failures must not prevent the encryption for the
         #   other devices to fail. Instead, those failures are collected and returned together with the
         #   successful encryption results, such that the library user can decide how to react in detail.
+
+        # Download the bundles that are required to build sessions upfront, such that sessions are loaded,
+        # advanced and stored again without waiting for the network in between. Otherwise, other operations
+        # could use the same sessions while this one is waiting.
+        bundle_errors: Dict[DeviceInformation, Union[BundleDownloadFailed, BundleNotFound]] = {}
+        for backend in self.__backends:
+            for device in devices:
+                if (
+                    backend.namespace in device.namespaces
+                    and await backend.load_session(device.bare_jid, device.device_id) is None
+                    and not any(
+                        bundle.namespace == backend.namespace
+                        and bundle.bare_jid == device.bare_jid
+                        and bundle.device_id == device.device_id
+                        for bundle in bundle_cache
+                    )
+                ):
+                    try:
+                        bundle_cache |= { await self._download_bundle(
+                            backend.namespace,
+                            device.bare_jid,
+                            device.device_id
+                        ) }
+                    except (BundleDownloadFailed, BundleNotFound) as e:
+                        bundle_errors[device] = e
+
         messages: Dict[Message, PlainKeyMaterial] = {}
         encryption_errors: Set[EncryptionError] = set()
         sessions: Set[Tuple[Backend, Session]] = set()
@@ -1928,11 +1954,9 @@ class SessionManager(ABC):
                     if session is None:
                         # Build the session if necessary, and encrypt the key material
                         if bundle is None:
-                            bundle = await self._download_bundle(
-                                backend.namespace,
-                                device.bare_jid,
-                                device.device_id
-                            )
+                            raise bundle_errors.get(device, BundleNotFound(
+                                "The session with the recipient device was deleted during encryption."
+                            ))
 
                         # The trust decision was made on the identity key known for this device. Make sure
                         # that the session is built with that very identity key.
@@ -2289,8 +2313,11 @@ class SessionManager(ABC):
                 queued_device_ids.add(session.device_id)
                 await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
             else:
-                # If not in history synchronization mode, send the empty message right away
-                await self.__send_empty_message(backend, session)
+                # If not in history synchronization mode, send the empty message right away. Other operations
+                # could have used the session while waiting for the bundle upload, thus load it again.
+                current_session = await backend.load_session(session.bare_jid, session.device_id)
+                if current_session is not None:
+                    await self.__send_empty_message(backend, current_session)
 
         logging.getLogger(SessionManager.LOG_TAG).debug("Post-decryption tasks completed.")
 
-- 
2.43.0


From 5ca8ad24c4ae9f58b59ab6c3afbcf436e569f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 10/18] fix: don't cache outdated values if storage operations
 overlap

A load that was in progress while a store finished put the old value into the cache,
and overlapping stores cached the value of the one that returned last rather than
the one that was written last. Failed writes left the previous value in the cache,
even though what has been written is unknown.
---
 omemo/storage.py | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..2cc0f51 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -4,7 +4,7 @@ from __future__ import annotations  # pylint: disable=unused-variable
 from abc import ABC, abstractmethod
 import base64
 import copy
-from typing import Callable, Dict, Generic, List, Optional, Type, TypeVar, Union, cast
+from typing import Awaitable, Callable, Dict, Generic, List, Optional, Type, TypeVar, Union, cast
 
 from .types import JSONType, OMEMOException
 
@@ -189,6 +189,10 @@ class Storage(ABC):
 
         self.__cache: Optional[Dict[str, Maybe[JSONType]]] = None if disable_cache else {}
 
+        # The latest operation in progress by key. Used to detect overlapping operations on the same key, whose
+        # outcome can't be cached.
+        self.__operations: Dict[str, object] = {}
+
     @abstractmethod
     async def _load(self, key: str) -> Maybe[JSONType]:
         """
@@ -247,9 +251,13 @@ class Storage(ABC):
         if self.__cache is not None and key in self.__cache:
             return self.__cache[key]
 
+        operation = self.__operations[key] = object()
+
         value = await self._load(key)
-        if self.__cache is not None:
-            self.__cache[key] = value
+        if self.__operations.get(key) is operation:
+            del self.__operations[key]
+            if self.__cache is not None:
+                self.__cache[key] = value
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
@@ -264,10 +272,7 @@ class Storage(ABC):
             StorageException: if any kind of storage operation failed. Forwarded from :meth:`_store`.
         """
 
-        await self._store(key, value)
-
-        if self.__cache is not None:
-            self.__cache[key] = Just(value)
+        await self.__write(key, self._store(key, value), Just(value))
 
     async def delete(self, key: str) -> None:
         """
@@ -281,10 +286,30 @@ class Storage(ABC):
                 exist. Forwarded from :meth:`_delete`.
         """
 
-        await self._delete(key)
+        await self.__write(key, self._delete(key), Nothing())
 
-        if self.__cache is not None:
-            self.__cache[key] = Nothing()
+    async def __write(self, key: str, write: Awaitable[None], value: Maybe[JSONType]) -> None:
+        """
+        Perform a writing (or deletion) operation and update the cache.
+
+        Args:
+            key: The key identifying the value.
+            write: The operation to perform.
+            value: The value to cache if the operation succeeds. The value left behind by failed operations or
+                operations that overlap with others on the same key is not known, nothing is cached then.
+        """
+
+        operation = self.__operations[key] = object()
+        overlapped = True
+        try:
+            await write
+            overlapped = self.__operations.get(key) is not operation
+        finally:
+            self.__operations.pop(key, None)
+            if self.__cache is not None:
+                self.__cache.pop(key, None)
+                if not overlapped:
+                    self.__cache[key] = value
 
     async def store_bytes(self, key: str, value: bytes) -> None:
         """
-- 
2.43.0


From 651f881f23d408e8e9fe00125136ceeaee1da94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 11/18] fix: notice that a backend was unlisted by an
 interrupted purge

---
 omemo/session_manager.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 36bf9f9..cf1defe 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -502,15 +502,11 @@ class SessionManager(ABC):
         # First half of online data removal: remove this device from the device list. This has to be the first
         # step for consistency reasons.
         device_list = await self._download_device_list(namespace, self.__own_bare_jid)
-        try:
-            device_list.pop(self.__own_device_id)
-        except KeyError:
-            pass
-        else:
-            await self._upload_device_list(namespace, device_list)
 
         # Synchronize the offline device list with the online information. The namespace is only marked
-        # inactive for now, such that the removal is continued later in case it is interrupted.
+        # inactive for now, such that the removal is continued later in case it is interrupted. This happens
+        # before the upload, such that the device is listed again in case the upload is the last thing to
+        # happen and the backend is loaded again.
         storage = self.__storage
         device_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
 
@@ -519,6 +515,13 @@ class SessionManager(ABC):
             active[namespace] = False
             await storage.store(f"{device_key}/active", active)
 
+        try:
+            device_list.pop(self.__own_device_id)
+        except KeyError:
+            pass
+        else:
+            await self._upload_device_list(namespace, device_list)
+
         # If the backend is currently loaded, remove it from the list of loaded backends
         purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
         self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
-- 
2.43.0


From c11a4d674cec7f5e472506031d609a291b604e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:46 +0000
Subject: [PATCH 12/18] fix: clean up after an interrupted backend
 initialization if the backend is not loaded again

---
 omemo/session_manager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index cf1defe..587712b 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -436,6 +436,19 @@ class SessionManager(ABC):
                     if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                         await backend.generate_pre_keys(100 - num_visible_pre_keys)
 
+                    # Note down the namespace (as inactive) before publishing anything, such that the online
+                    # data is cleaned up if the initialization is interrupted and the backend is not loaded
+                    # again.
+                    device_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
+
+                    active = (await storage.load_dict(f"{device_key}/active", bool)).from_just()
+                    active[backend.namespace] = False
+                    await storage.store(f"{device_key}/active", active)
+
+                    namespaces = set((await storage.load_list(f"{device_key}/namespaces", str)).from_just())
+                    namespaces.add(backend.namespace)
+                    await storage.store(f"{device_key}/namespaces", list(namespaces))
+
                     # Publish the bundle of the new backend
                     await self._upload_bundle(await backend.get_bundle(
                         self.__own_bare_jid,
-- 
2.43.0


From 3360ede5d15ca96c326f3a973948ec03902fd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:58 +0000
Subject: [PATCH 13/18] fix: don't publish an outdated bundle when ensuring
 data consistency

ensure_data_consistency read the local bundle before downloading the published one. If the local bundle
changed (and was published) during the download, e.g. due to signed pre key rotation or a used pre key, the
outdated bundle was uploaded over the current one.
---
 omemo/session_manager.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 587712b..67b0cca 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -743,9 +743,7 @@ class SessionManager(ABC):
         for backend in self.__backends:
             await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
-            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
-
-            upload_bundle = False
+            remote_bundle: Optional[Bundle] = None
             try:
                 remote_bundle = await self._download_bundle(
                     backend.namespace,
@@ -758,11 +756,11 @@ class SessionManager(ABC):
                     exc_info=True
                 )
 
-                upload_bundle = True
-            else:
-                upload_bundle = remote_bundle != local_bundle
+            # Get the local bundle after the download, since it might have changed (and been published) in the
+            # meantime.
+            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
 
-            if upload_bundle:
+            if remote_bundle is None or remote_bundle != local_bundle:
                 logging.getLogger(SessionManager.LOG_TAG).warning(
                     "Online bundle data differs from offline bundle data."
                 )
-- 
2.43.0


From 622cc9fa41b72d31db774c958acf3d7b431bfe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:38 +0000
Subject: [PATCH 14/18] fix: delete sessions before identity keys when purging
 an account

An interrupted purge could leave sessions behind whose device had been forgotten already. If the device
reappeared with another identity key, messages were encrypted with the old session, which is bound to an identity
key that is not the one trust was decided on.
---
 omemo/session_manager.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 67b0cca..5791051 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -19,7 +19,7 @@ from .bundle import Bundle
 from .identity_key_pair import IdentityKeyPair
 from .message import EncryptedKeyMaterial, KeyExchange, Message, PlainKeyMaterial
 from .session import Initiation, Session
-from .storage import NothingException, Storage
+from .storage import NothingException, Storage, StorageException
 from .types import AsyncFramework, DeviceInformation, OMEMOException, TrustLevel
 
 
@@ -595,8 +595,20 @@ class SessionManager(ABC):
                 pass
 
         # The order of the following deletions makes sure that an interrupted purge leaves consistent data
-        # behind and can be repeated: the trust is found via the identity keys, and the identity keys and all
-        # other device information via the device list.
+        # behind and can be repeated: sessions must not outlive the identity keys they were built with, the
+        # trust is found via the identity keys, and the identity keys and all other device information via the
+        # device list.
+
+        # Remove backend-specific data. Unless it's the storage that fails, don't let a failing backend prevent
+        # the removal of everything else.
+        backend_exception: Optional[Exception] = None
+        for backend in self.__backends:
+            try:
+                await backend.purge_bare_jid(bare_jid)
+            except StorageException:
+                raise
+            except Exception as e:  # pylint: disable=broad-except
+                backend_exception = e
 
         # Delete information about the identity keys
         for identity_key in identity_keys:
@@ -616,9 +628,8 @@ class SessionManager(ABC):
             await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
             await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
 
-        # Remove backend-specific data
-        for backend in self.__backends:
-            await backend.purge_bare_jid(bare_jid)
+        if backend_exception is not None:
+            raise backend_exception
 
         logging.getLogger(SessionManager.LOG_TAG).info(
             f"Bare JID {bare_jid} purged from library core data and backend-specific data of all currently"
-- 
2.43.0


From 409f3d1b5703cb67d28e701b865d663dace73d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:34 +0000
Subject: [PATCH 15/18] fix: refuse a negative number of per-message skipped
 keys

The documentation allows numbers between 1 and the per-session maximum (or 0 together with 0). With a negative number
every message was refused, even without any skipped message.
---
 omemo/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omemo/backend.py b/omemo/backend.py
index cd2c4bc..99af781 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,6 +111,9 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
+        if (max_num_per_message_skipped_keys or 0) < 0:
+            raise ValueError("The number of allowed per-message skipped keys must not be negative.")
+
         if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
-- 
2.43.0


From 282e58780c7f03ad3f8d7e49842dd261a8f8500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:43 +0000
Subject: [PATCH 16/18] fix: forget queued empty messages when purging a
 backend

---
 omemo/session_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 5791051..a831fd4 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -552,6 +552,11 @@ class SessionManager(ABC):
             )
             await purged_backend.purge()
 
+            # Forget about the empty messages that are queued for the sessions that were just removed
+            for bare_jid in (await storage.load_list(f"/queue/{namespace}", str)).maybe([]):
+                await storage.delete(f"/queue/{namespace}/{bare_jid}")
+            await storage.delete(f"/queue/{namespace}")
+
         # Second half of online data removal: delete the bundle of this device. This step has low priority,
         # thus done last.
         await self._delete_bundle(namespace, self.__own_device_id)
-- 
2.43.0


From 85da05da72b3132ed9e1ab3e29e82dd33e6192ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 17/18] fix: forget queued empty messages when purging an
 account

---
 omemo/session_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index a831fd4..07f1d19 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -615,6 +615,14 @@ class SessionManager(ABC):
             except Exception as e:  # pylint: disable=broad-except
                 backend_exception = e
 
+        # Forget about the empty messages that are queued for the sessions that were just removed
+        for backend in self.__backends:
+            queued_jids = set((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
+            if bare_jid in queued_jids:
+                queued_jids.discard(bare_jid)
+                await storage.store(f"/queue/{backend.namespace}", list(queued_jids))
+            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
         # Delete information about the identity keys
         for identity_key in identity_keys:
             await storage.delete(
-- 
2.43.0


From 0555251141dd6aeece8bd18aa1493c75e8e82588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 18/18] fix: keep an empty message queued that was queued again
 while sending

A key exchange can be decrypted (and its empty message queued) after
before_history_sync was called again, while after_history_sync is still
sending the previous empty message to the same device. The queue entry was
removed once that message was sent, and the new one was lost.
---
 omemo/session_manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 07f1d19..7b4db24 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -247,6 +247,7 @@ class SessionManager(ABC):
         self.__pre_key_refill_threshold: int
         self.__identity_key_pair: IdentityKeyPair
         self.__synchronizing: bool
+        self.__requeued: Set[Tuple[str, str, int]]
 
     @classmethod
     async def create(
@@ -349,6 +350,7 @@ class SessionManager(ABC):
         self.__pre_key_refill_threshold = pre_key_refill_threshold
         self.__identity_key_pair = await IdentityKeyPair.get(storage)
         self.__synchronizing = True
+        self.__requeued = set()
 
         try:
             self.__own_device_id = (await self.__storage.load_primitive("/own_device_id", int)).from_just()
@@ -1641,6 +1643,8 @@ class SessionManager(ABC):
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Queued device ids: {queued_device_ids}")
 
                 for device_id in queued_device_ids:
+                    self.__requeued.discard((backend.namespace, bare_jid, device_id))
+
                     session = await backend.load_session(bare_jid, device_id)
                     if session is None:
                         logging.getLogger(SessionManager.LOG_TAG).warning(
@@ -1653,7 +1657,11 @@ class SessionManager(ABC):
                         await self.__send_empty_message(backend, session)
 
                     # Only remove the device from the queue once the empty message was sent, such that
-                    # nothing is lost if sending fails
+                    # nothing is lost if sending fails. Keep it if another empty message was queued for the
+                    # device while sending this one.
+                    if (backend.namespace, bare_jid, device_id) in self.__requeued:
+                        continue
+
                     remaining_device_ids = set((await storage.load_list(
                         f"/queue/{backend.namespace}/{bare_jid}",
                         int
@@ -2350,6 +2358,7 @@ class SessionManager(ABC):
 
                 queued_device_ids.add(session.device_id)
                 await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
+                self.__requeued.add((session.namespace, session.bare_jid, session.device_id))
             else:
                 # If not in history synchronization mode, send the empty message right away. Other operations
                 # could have used the session while waiting for the bundle upload, thus load it again.
-- 
2.43.0

