From 96abe32e9f4af0f8038295736289d274a3a6e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 01/12] fix: accept valid per-message skipped key limits

Due to operator precedence, every non-zero per-message limit was rejected.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From f42c4ccc3b8c1df43122501284e802d31c00e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 02/12] fix: double the bundle upload retry delay after signed
 pre key rotation

The delay was reset to one minute on each attempt.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..2c71989 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -676,8 +676,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From e78666b18f125515dc53d5cf56dfe03fd23bc0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 03/12] fix: resume interrupted backend initialization

The namespaces of new backends were recorded as active before their pre keys
were generated, their bundles uploaded and their device lists adjusted. If any
of that failed, loading again considered the backends initialized and never
published them. Likewise, the namespaces of missing backends were dropped before
purging, such that a failed purge was never repeated. Let the initialization
and purging of each backend keep track of the namespaces instead.
---
 omemo/session_manager.py | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2c71989..0b36885 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -376,15 +376,16 @@ class SessionManager(ABC):
             ))
             logging.getLogger(SessionManager.LOG_TAG).debug(f"Generated device id: {self.__own_device_id}")
 
-            # Store the device information for this device
+            # Store the device information for this device. No backend is initialized at this point, the
+            # namespaces are added one after the other as the respective backends are initialized below.
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
+                []
             )
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
+                {}
             )
 
             await storage.store(
@@ -415,19 +416,6 @@ class SessionManager(ABC):
             # Finally store the device id once the other setup is done
             await self.__storage.store("/own_device_id", self.__own_device_id)
 
-            # Generate the first 100 pre keys for each backend
-            for backend in self.__backends:
-                await backend.generate_pre_keys(100)
-
-            # Publish the bundles for all backends
-            for backend in self.__backends:
-                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))
-
-            # Trigger a refresh of the own device lists for all backends, this will result in this device
-            # being added to the lists and the lists republished.
-            for backend in self.__backends:
-                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
-
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
@@ -438,18 +426,6 @@ class SessionManager(ABC):
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
             # Take care of the initialization of newly added backends
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
-- 
2.43.0


From c25230208b93a7214ade5d3795d1d55b8a461dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 04/12] fix: only build sessions with bundles of the known
 identity key

Trust is decided on the identity key stored for a device, but sessions were
actively built with whichever identity key the downloaded bundle contained.
Passive session initiation has always checked this.
---
 omemo/session_manager.py | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 0b36885..4292306 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1211,15 +1211,24 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    # Download the bundle and make sure that it belongs to the known identity key
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            "The identity key of the bundle does not match the identity key known for the"
+                            " device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1871,15 +1880,27 @@ class SessionManager(ABC):
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Cached bundle: {bundle}")
 
                 try:
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # The trust decision was made for the known identity key, don't build sessions with
+                        # any other.
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key of the bundle does not match the identity key known for the"
+                                " device."
+                            )
+
                     # Build the session if necessary, and encrypt the key material
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
+                        cast(Bundle, bundle),
                         plain_key_material
                     ) if session is None else (session, await backend.encrypt_key_material(
                         session,
-- 
2.43.0


From b7c75d14368e8042399acd79c9b5de8b6b405511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 05/12] fix: don't overwrite cached values with outdated loaded
 ones

A load running concurrently to a store or delete operation could replace the
new value in the cache by the old one, which was then returned forever.
---
 omemo/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..c5ddd93 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -249,7 +249,8 @@ class Storage(ABC):
 
         value = await self._load(key)
         if self.__cache is not None:
-            self.__cache[key] = value
+            # If the value was stored or deleted while loading, the cache is more recent than the loaded value.
+            value = self.__cache.setdefault(key, value)
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
-- 
2.43.0


From 324c7b92dcb2e7bd04a88f8da8087a9bba7f2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 06/12] fix: handle unknown namespaces when gathering device
 information

Devices keep the namespaces of backends that are not loaded (any more), for
which _download_bundle is allowed to raise UnknownNamespace.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 4292306..65a1fb1 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1418,7 +1418,7 @@ class SessionManager(ABC):
                             f" namespace {namespace}.",
                             exc_info=True
                         )
-                    except BundleNotFound:
+                    except (BundleNotFound, UnknownNamespace):
                         logging.getLogger(SessionManager.LOG_TAG).warning(
                             f"Bundle not available for device {device_id} of bare JID {bare_jid} for"
                             f" namespace {namespace}.",
-- 
2.43.0


From 2dbeea4ad3bbb12495d3cd2818565b6de89a08e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 07/12] fix: keep data consistent if purging a bare JID is
 interrupted

The information about the devices was deleted before the device list, such that
an interruption left the list referring to missing data, making most operations
for that bare JID fail. An interruption after deleting the device list leaked
trust information and sessions, without a way to remove them.
---
 omemo/session_manager.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 65a1fb1..2b5933f 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -564,36 +564,34 @@ class SessionManager(ABC):
         # Get the set of devices to delete
         device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
 
-        # Collect identity keys used by this account
-        identity_keys: Set[bytes] = set()
+        # Delete information about the identity keys used by this account
         for device_id in device_list:
             try:
-                identity_keys.add((await storage.load_bytes(
+                identity_key = (await storage.load_bytes(
                     f"/devices/{bare_jid}/{device_id}/identity_key"
-                )).from_just())
+                )).from_just()
             except NothingException:
-                pass
-
-        # Delete information about the individual devices
-        for device_id in device_list:
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
-            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
-
-        # Delete the device list
-        await storage.delete(f"/devices/{bare_jid}/list")
+                continue
 
-        # Delete information about the identity keys
-        for identity_key in identity_keys:
             await storage.delete(
                 f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
             )
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
 
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
 
+        # Delete the device list. Keep the remaining information about the individual devices until the list
+        # is gone, since it has to be available for all devices on the list.
+        await storage.delete(f"/devices/{bare_jid}/list")
+
+        # Delete information about the individual devices
+        for device_id in device_list:
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
+            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
+
         logging.getLogger(SessionManager.LOG_TAG).info(
             f"Bare JID {bare_jid} purged from library core data and backend-specific data of all currently"
             " loaded backends."
-- 
2.43.0


From 7810f619faebddf2e8d6692c5d35b7d4698f0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 08/12] fix: don't publish the bundle of a purged backend

The signed pre key rotation kept rotating and publishing bundles of backends
that were purged while it was waiting to retry a bundle upload.
---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2b5933f..49378e3 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -639,6 +639,10 @@ class SessionManager(ABC):
 
             # For each backend, check whether the signed pre key is due for rotation
             for backend in self.__backends:
+                # Skip the backend if it was purged in the meantime
+                if backend not in self.__backends:
+                    continue
+
                 signed_pre_key_age = await backend.signed_pre_key_age()
                 next_rotation = signed_pre_key_rotation_period - signed_pre_key_age
 
@@ -651,7 +655,7 @@ class SessionManager(ABC):
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
                     retry_delay = 60  # Start with one minute of retry delay
-                    while True:
+                    while backend in self.__backends:  # Stop if the backend is purged in the meantime
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 43987a7a747dee1bb4b8b10efd02d067b59f07bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 09/12] fix: list the device again if the removal of a backend
 was interrupted

---
 omemo/session_manager.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 49378e3..19d8cd8 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -419,8 +419,10 @@ class SessionManager(ABC):
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
-        active_namespaces = device.namespaces
-        if loaded_namespaces != active_namespaces:
+        known_namespaces = device.namespaces
+        # This device is only marked inactive for namespaces whose removal was interrupted
+        active_namespaces = known_namespaces - frozenset(ns for ns, active in device.active if not active)
+        if loaded_namespaces != active_namespaces or known_namespaces != active_namespaces:
             logging.getLogger(SessionManager.LOG_TAG).info(
                 "The list of backends loaded now differs from the list of backends that were loaded last run:"
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
@@ -445,7 +447,7 @@ class SessionManager(ABC):
                     await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
             # Perform cleanup of removed backends
-            for namespace in active_namespaces - loaded_namespaces:
+            for namespace in known_namespaces - loaded_namespaces:
                 await self.purge_backend(namespace)
 
         # Start signed pre key rotation management "in the background"
@@ -500,16 +502,25 @@ class SessionManager(ABC):
         # First half of online data removal: remove this device from the device list. This has to be the first
         # step for consistency reasons.
         device_list = await self._download_device_list(namespace, self.__own_bare_jid)
+        device, _ = await self.get_own_device_information()
+        active = dict(device.active)
         try:
             device_list.pop(self.__own_device_id)
         except KeyError:
             pass
         else:
+            # Mark this device as inactive before it disappears from the device list, such that the backend is
+            # initialized again if it's loaded after the removal was interrupted.
+            if active.get(namespace, False):
+                active[namespace] = False
+                await self.__storage.store(
+                    f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
+                    dict(active)
+                )
+
             await self._upload_device_list(namespace, device_list)
 
         # Synchronize the offline device list with the online information
-        device, _ = await self.get_own_device_information()
-        active = dict(device.active)
         active.pop(namespace, None)
         device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))
         device = device._replace(active=frozenset(active.items()))
-- 
2.43.0


From 7f24a4a5d0f5adf209ec1e2b0236ce85f72cde7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 10/12] fix: forget about queued empty messages of purged bare
 JIDs

Purging a bare JID left the queue of empty messages behind. A message was sent
on its behalf when a new session was built before the end of the history
synchronization.
---
 omemo/session_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 19d8cd8..7b02819 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -593,6 +593,15 @@ class SessionManager(ABC):
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
 
+        # Forget about empty messages that are queued for this account
+        for backend in self.__backends:
+            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
+            queued_jids = set((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
+            if bare_jid in queued_jids:
+                queued_jids.remove(bare_jid)
+                await storage.store(f"/queue/{backend.namespace}", list(queued_jids))
+
         # Delete the device list. Keep the remaining information about the individual devices until the list
         # is gone, since it has to be available for all devices on the list.
         await storage.delete(f"/devices/{bare_jid}/list")
-- 
2.43.0


From 2c22165e67f2db81764a40f854dc322674d5b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:02 +0000
Subject: [PATCH 11/12] fix: forget about queued empty messages of purged
 backends

---
 omemo/session_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 7b02819..7c38470 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -552,6 +552,11 @@ class SessionManager(ABC):
             )
             await purged_backend.purge()
 
+            # Forget about empty messages that are queued for this backend
+            for bare_jid in (await self.__storage.load_list(f"/queue/{namespace}", str)).maybe([]):
+                await self.__storage.delete(f"/queue/{namespace}/{bare_jid}")
+            await self.__storage.delete(f"/queue/{namespace}")
+
         # Second half of online data removal: delete the bundle of this device. This step has low priority,
         # thus done last.
         await self._delete_bundle(namespace, self.__own_device_id)
-- 
2.43.0


From 855d7fbd7988e727f6b2e9eb10340e3b009499a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 12/12] fix: don't fail to replace the sessions of an unknown
 device

The search for the device raised StopIteration, which surfaced as a RuntimeError. There are no sessions to
replace with a device that is not known (any more), for example because its bare JID was purged.
---
 omemo/session_manager.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 7c38470..d130352 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1213,12 +1213,18 @@ class SessionManager(ABC):
         # Do not assume that the given device information is complete and up-to-date. It is okay to use
         # get_device_information here, since there can only be sessions for devices that have full device
         # information available.
-        device = next(filter(
+        known_device = next(filter(
             lambda dev: dev.device_id == device.device_id,
             await self.get_device_information(device.bare_jid)
-        ))
+        ), None)
+
+        logging.getLogger(SessionManager.LOG_TAG).debug(f"Device information from storage: {known_device}")
+
+        if known_device is None:
+            # There are no sessions to replace with devices that are not known (any more).
+            return {}
 
-        logging.getLogger(SessionManager.LOG_TAG).debug(f"Device information from storage: {device}")
+        device = known_device
 
         # Remove namespaces that correspond to backends which are not currently loaded or backends which have
         # no session for this device.
-- 
2.43.0

