"""The planted bugs: each breaks one property in a specific situation and passes the existing tests."""
from typing import Any, Dict, List

SM = "session_manager.py"
BUGS: List[Dict[str, Any]] = []


def bug(id: str, property: str, edits: Any, needs: str, breaks: str, demo: str) -> None:
    BUGS.append({"id": id, "property": property, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c01-revoked-during-decision", "C01", [(SM,
"""            )).maybe(self.__undecided_trust_level_name)) for device in devices }
""",
"""            )).maybe(self.__undecided_trust_level_name)) if device in undecided_devices else device
                for device in devices
            }
""")],
    "a trust decision for an undecided device during which the application also revokes the trust of another, so far "
    "trusted recipient device",
    "the message still carries key material for the device that is distrusted when the call returns",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", BOB, 2, trust=None)
x, r = c.encrypt([BOB], dec={"set": [(BOB, ik("bob@x1"), "blocked"), (BOB, ik("bob@x2"), "trusted")]})
expect(x == "ok", x)
expect([k[2] for k in rows(r[0])] == [2], f"addressed {rows(r[0])}")
""")

bug("c01-shared-key-across-accounts", "C01", [(SM,
"""        # Keep only trusted devices
        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
""",
"""        # Keep only trusted devices, asking the application once per identity key
        trust_levels: Dict[bytes, TrustLevel] = {}
        for device in devices:
            if device.identity_key not in trust_levels:
                trust_levels[device.identity_key] = await self._evaluate_custom_trust_level(device)

        devices = {
            device for device in devices if trust_levels[device.identity_key] is TrustLevel.TRUSTED
        }
""")],
    "two recipient accounts with devices that present the same identity key, trusted for one account and distrusted "
    "for the other",
    "the trust level of one account's device decides about the other account's device",
"""
for first in ("trusted", "blocked"):
    c = Client()
    expect(c.create("A") == "ok", "create")
    second = "blocked" if first == "trusted" else "trusted"
    for d in range(1, 5):
        c.device("A", BOB, d, who=f"shared{d}", trust=first)
        c.device("A", EVE, d, who=f"shared{d}", trust=second)
    c.device("A", BOB, 9)
    c.device("A", EVE, 9)
    x, r = c.encrypt([BOB, EVE])
    expect(x == "ok", x)
    got = {(j, d) for _, j, d, _ in rows(r[0])}
    good = BOB if first == "trusted" else EVE
    expect(got == {(good, d) for d in range(1, 5)} | {(BOB, 9), (EVE, 9)}, f"addressed {sorted(got)}")
""")

bug("c02-kex-identity-unchecked-with-session", "C02", [(SM,
"""            # Check whether the identity key matches the one we know
            if key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
                    "There is no session with the sending device. Key exchange information to build a new"
                    " session is included in the message, however the identity key of the key exchange"
                    " information does not match the identity key known for the sending device."
                )

            # Check whether there is a session with the sending device already
            session = await backend.load_session(device.bare_jid, device.device_id)
""",
"""            # Check whether there is a session with the sending device already
            session = await backend.load_session(device.bare_jid, device.device_id)

            # Check whether the identity key matches the one we know
            if session is None and key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
                    "There is no session with the sending device. Key exchange information to build a new"
                    " session is included in the message, however the identity key of the key exchange"
                    " information does not match the identity key known for the sending device."
                )

""")],
    "a key exchange with a foreign identity key from a device with which a session exists already",
    "the session is replaced by one bound to an identity key other than the one known for the device",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
old = c.session("A", BOB, 1)
x, r = c.call("decrypt", c.first("A", BOB, 1, c.kex("A", BOB, 1, who="mallory")))
expect(x == "PublicDataInconsistency", f"foreign key exchange: {x}")
expect(c.session("A", BOB, 1) == old, "session replaced")
""")

bug("c02-forget-key-of-returning-device", "C02", [(SM,
"""                # Update the status if required
                if namespace not in active or active[namespace] is False:
                    active[namespace] = True
""",
"""                # Update the status if required
                if namespace not in active or active[namespace] is False:
                    if not any(active.values()):
                        # The device was gone and comes back: make sure to not use outdated key material
                        await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")

                    active[namespace] = True
""")],
    "a device that disappears from all device lists and returns later, with a bundle of a different identity key",
    "the identity key learned for the device changes",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("get_device_information", BOB)
c.must("update_device_list", "A", BOB, {2: None})
c.publish("A", BOB, 1, who="mallory")
c.must("update_device_list", "A", BOB, {1: None, 2: None})
d = {d.device_id: d.identity_key for d in c.must("get_device_information", BOB)}
expect(d.get(1) == ik("bob@x1"), "identity key changed")
""")

bug("c03-own-id-of-others", "C03", [(SM,
"""            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False
""",
"""            if device.device_id == self.__own_device_id:
                return False
""")],
    "a recipient device whose device id happens to equal the id of this device",
    "the device is not addressed although it is active and trusted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, c.own)
c.device("A", BOB, c.own + 1)
x, r = c.encrypt([BOB])
expect(x == "ok", x)
expect({k[2] for k in rows(r[0])} == {c.own, c.own + 1}, f"addressed {rows(r[0])}")
""")

bug("c03-inactive-backend-chosen", "C03", [(SM,
"""                if dict(device.active)[namespace] and namespace in backend_priority_order
""",
"""                if namespace in backend_priority_order
""")],
    "a device that is no longer active for the preferred backend but still is for another one",
    "the device is addressed through a backend for which it is not active",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1)
c.device("B", BOB, 1)
c.must("update_device_list", "A", BOB, {})
x, r = c.encrypt([BOB])
expect(x == "ok", x)
expect([k[:3] for k in rows(r[0])] == [("B", BOB, 1)], f"addressed {rows(r[0])}")
""")

bug("c04-eligibility-before-sessions", "C04", [(SM,
"""        # Encrypt the plaintext once per backend.
        # About error handling:
""",
"""        # Remember who can be reached
        reachable = frozenset(device.bare_jid for device in devices)

        # Encrypt the plaintext once per backend.
        # About error handling:
"""), (SM,
"""            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
""",
"""            lambda bare_jid: bare_jid not in reachable,
""")],
    "a recipient whose only devices turn out to have no usable bundle",
    "encryption succeeds although a recipient is left without any addressed device",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", EVE, 1)
c.must("get_device_information", EVE)
c.w.bundles.pop(("A", EVE, 1))
x, r = c.encrypt([BOB, EVE])
expect(x == "NoEligibleDevices" and r.bare_jids == frozenset({EVE}), f"{x}")
""")

bug("c05-sessions-by-device-id", "C05", [(SM,
"""        sessions: Set[Tuple[Backend, Session]] = set()
""",
"""        sessions: Dict[Tuple[str, int], Tuple[Backend, Session]] = {}
"""), (SM,
"""                    sessions.add((backend, session))
""",
"""                    sessions[(backend.namespace, session.device_id)] = (backend, session)
"""), (SM,
"""        for backend, session in sessions:
            # Persist the session as the final step
""",
"""        for backend, session in sessions.values():
            # Persist the session as the final step
""")],
    "a message to devices of two accounts that happen to have the same device id",
    "one of the two sessions is not stored, its message key is used again",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 7)
c.device("A", EVE, 7)
for n in (1, 2):
    x, r = c.encrypt([BOB, EVE])
    expect(x == "ok", x)
    expect([(c.session("A", j, 7) or {}).get("sn") for j in (BOB, EVE)] == [n, n], "session not stored")
""")

bug("c05-store-early", "C05", [(SM,
"""                    # Keep track of the modified sessions to store them once encryption is fully done.
                    sessions.add((backend, session))
""",
"""                    # Keep track of the modified sessions. New sessions are stored once encryption is fully done.
                    if bundle is None:
                        await backend.store_session(session)
                    else:
                        sessions.add((backend, session))
""")],
    "an encryption that fails because one recipient has no eligible device, after another one was encrypted for over an "
    "existing session",
    "stored sessions change although encryption raises",
"""
c = Client()
expect(c.create("A") == "ok", "create")
for d in (1, 2, 3):
    c.device("A", BOB, d)
x, r = c.encrypt([BOB])
expect(x == "ok", x)
old = [c.session("A", BOB, d) for d in (1, 2, 3)]
x, r = c.encrypt([BOB, "nobody@x"])
expect(x == "NoEligibleDevices", x)
expect([c.session("A", BOB, d) for d in (1, 2, 3)] == old, "sessions changed")
""")

bug("c06-late-distrust", "C06", [(SM,
"""        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(
                "The identity key corresponding to the sending device is explicitly distrusted."
            )
""",
"""        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if device in known_devices and (
            await self._evaluate_custom_trust_level(device)
        ) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(
                "The identity key corresponding to the sending device is explicitly distrusted."
            )
"""), (SM,
"""        # Check whether the sending device is known
        devices = await self.get_device_information(message.bare_jid)
""",
"""        # Check whether the sending device is known
        devices = await self.get_device_information(message.bare_jid)
        known_devices = devices
""")],
    "a message of a device that is not on the locally known device list yet, whose identity key was distrusted before",
    "the message of a distrusted sender is decrypted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.publish("A", BOB, 1)
c.w.lists[("A", BOB)] = {1: None}
c.must("set_trust", BOB, ik("bob@x1"), "blocked")
x, r = c.call("decrypt", c.first("A", BOB, 1))
expect(x == "SenderDistrusted", f"distrusted sender: {x}")
""")

bug("c06-key-of-other-account", "C06", [(SM,
"""                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
""",
"""                lambda k: k[0].device_id == self.__own_device_id,
""")],
    "a message without key material for this device, but with key material for another account's device of the same id",
    "the message is not refused as not being for this device",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
x, r = c.call("decrypt", c.first("A", BOB, 1, to=(EVE, c.own)))
expect(x == "MessageNotForUs", f"message for somebody else: {x}")
""")

bug("c07-store-before-payload", "C07", [(SM,
"""        # Decrypt the message
        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
            message.content,
            plain_key_material
        )

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Message decrypted: {plaintext}")

        # Persist the session following successful decryption
        await backend.store_session(session)
""",
"""        # Persist the session following successful decryption of the key material
        await backend.store_session(session)

        # Decrypt the message
        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
            message.content,
            plain_key_material
        )
""")],
    "a message whose key material decrypts but whose payload was tampered with",
    "the stored session advances although decryption failed",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
k = c.kex("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1, k))
old = c.session("A", BOB, 1)
x, r = c.call("decrypt", c.first("A", BOB, 1, k, n=2, bad=True))
expect(x == "DecryptionFailed", x)
expect(c.session("A", BOB, 1) == old, "session advanced")
""")

bug("c08-kex-on-confirmed-reply", "C08", [(SM,
"""            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
        ), session.bare_jid)
""",
"""            frozenset({ (encrypted_key_material, (
                session.key_exchange if session.initiation is Initiation.ACTIVE else None
            )) })
        ), session.bare_jid)
""")],
    "an automated reply to a stale chain over a confirmed session which this side initiated",
    "the reply carries the key exchange although the session is confirmed",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
x, r = c.encrypt([BOB])
expect(x == "ok", x)
s = c.session("A", BOB, 1)
c.must("decrypt", c.message("A", BOB, 1, s["sid"], 2, 1))
c.must("decrypt", c.message("A", BOB, 1, s["sid"], 2, 60))
sent = [k for e in c.sends() for k in e["msg"]["keys"]]
expect(len(sent) == 1 and sent[0][7] is False, f"reply {sent}")
""")

bug("c08-kex-rebuilds-answered-session", "C08", [(SM,
"""                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
""",
"""                    session.initiation is Initiation.PASSIVE
                    and not session.confirmed
                    and session.key_exchange.builds_same_session(key_exchange)
""")],
    "three or more messages that all carry the same key exchange (the initiator saw no reply yet)",
    "a key exchange that belongs to the existing session is treated as a new one and the message is lost",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
k = c.kex("A", BOB, 1)
for n in range(1, 6):
    c.must("decrypt", c.first("A", BOB, 1, k, n=n))
expect(c.session("A", BOB, 1)["rn"] == 5, "session not continued")
""")

bug("c09-publish-only-refilled", "C09", [(SM,
"""                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
""",
"""                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    await self._upload_bundle(bundle)
""")],
    "a refill threshold below 99, so that consuming a pre key does not trigger a refill",
    "a consumed pre key remains offered in the published bundle",
"""
c = Client()
expect(c.create("A", thr=50) == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
k = c.kex("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1, k))
expect(k.pk not in c.bundle("A").pks, "used pre key is still published")
""")

bug("c09-hidden-kept-if-queue-empty", "C09", [(SM,
"""        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""",
"""        # Delete pre keys that were hidden while in history synchronization mode. There can only be such pre keys
        # if key exchanges were received, which are to be answered with empty messages.
        for backend in self.__backends:
            if (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]):
                await backend.delete_hidden_pre_keys()
""")],
    "the account whose key exchange was processed during synchronization is purged before synchronization ends",
    "the hidden pre key survives the end of the synchronization and can be used for another key exchange",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
k = c.kex("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1, k))
c.must("purge_bare_jid", BOB)
c.must("after_history_sync")
c.device("A", EVE, 1)
x, r = c.call("decrypt", c.first("A", EVE, 1, c.kex("A", EVE, 1, pk=k.pk)))
expect(x != "ok", "pre key used twice")
""")

bug("c10-refill-by-threshold", "C10", [(SM,
"""                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle =""",
"""                    await backend.generate_pre_keys(100 - self.__pre_key_refill_threshold)

                bundle =""")],
    "a restart with a higher refill threshold after pre keys were consumed under a lower one",
    "the number of offered pre keys is not refilled to 100",
"""
c = Client()
expect(c.create("A", thr=50) == "ok", "create")
c.device("A", BOB, 1)
for _ in range(4):
    c.must("decrypt", c.first("A", BOB, 1))
expect(c.create("A", thr=99) == "ok", "create")
c.must("decrypt", c.first("A", BOB, 1))
expect(len(c.bundle("A").pks) == 100, f"{len(c.bundle('A').pks)} pre keys")
""")

bug("c10-overfull-on-return", "C10", [(SM,
"""                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish""",
"""                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100)

                    # Publish""")],
    "a backend that was unloaded with some of its pre keys consumed, and is loaded again later",
    "more than 100 pre keys are offered",
"""
c = Client()
expect(c.create("A", "B", thr=50) == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
expect(c.create("B", thr=50) == "ok", "create")
expect(c.create("A", "B", thr=99) == "ok", "create")
expect(len(c.bundle("A").pks) == 100, f"{len(c.bundle('A').pks)} pre keys")
""")

bug("c11-second-device-of-account", "C11", [(SM,
"""                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))
""",
"""                if session.bare_jid in queued_jids:
                    return (plaintext, device, plain_key_material)

                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))
""")],
    "key exchanges of two devices of the same account during history synchronization",
    "the second device never gets its empty message",
"""
c = Client()
expect(c.create("A") == "ok", "create")
for d in (1, 2):
    c.device("A", BOB, d)
    c.must("decrypt", c.first("A", BOB, d))
c.must("after_history_sync")
to = sorted(k[1] for e in c.sends() for k in e["msg"]["keys"])
expect(to == ["d1", "d2"], f"replies to {to}")
""")

bug("c11-stop-at-missing-session", "C11", [(SM,
"""                            f"Can't send queued empty message for device {device_id} of bare JID {bare_jid}"
                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
""",
"""                            f"Can't send queued empty message for device {device_id} of bare JID {bare_jid}"
                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
                        return
""")],
    "several devices of an account have queued replies and the session with one of them was deleted in the meantime",
    "devices queued together with the one without session get no empty message",
"""
c = Client()
expect(c.create("A") == "ok", "create")
devs = list(range(1, 9))
for d in devs:
    c.device("A", BOB, d)
    c.must("decrypt", c.first("A", BOB, d))
for gone in devs[:4]:
    c.w.data.pop(f"/sym/A/ses/{BOB}/{gone}")
c.must("after_history_sync")
to = sorted(k[1] for e in c.sends() for k in e["msg"]["keys"])
expect(to == [f"d{d}" for d in devs[4:]], f"replies to {to}")
""")

bug("c12-stale-reply-only-trusted", "C12", [(SM,
"""            else:
                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
""",
"""            elif key_exchange is not None or (
                await self._evaluate_custom_trust_level(device)
            ) is TrustLevel.TRUSTED:
                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
""")],
    "a receiving chain that becomes stale in live mode, with a device whose trust is undecided",
    "the stale chain is not answered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1, trust=None)
c.must("decrypt", c.first("A", BOB, 1))
expect(len(c.sends()) == 1, f"{len(c.sends())} replies")
c.must("decrypt", c.message("A", BOB, 1, c.session("A", BOB, 1)["sid"], 1, 60))
expect(len(c.sends()) == 1, "stale chain not answered")
""")

bug("c12-stale-at-53", "C12", [(SM,
"""            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
""",
"""            or (session.receiving_chain_length or 0) % (self.__class__.STALENESS_MAGIC_NUMBER + 1) == 0
            and session.receiving_chain_length
""")],
    "a message that makes the receiving chain longer than 53 by skipping the 54th message",
    "a stale chain is not answered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
s = c.session("A", BOB, 1)
c.must("decrypt", c.message("A", BOB, 1, s["sid"], 1, 53))
expect(len(c.sends()) == 0, "reply at 53")
c.must("decrypt", c.message("A", BOB, 1, s["sid"], 1, 60))
expect(len(c.sends()) == 1, "no reply at 60")
""")

bug("c13-list-replaced", "C13", [(SM,
"""            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
""",
"""            await storage.store(f"/devices/{bare_jid}/list", list(device_list.keys() | new_devices))
""")],
    "an update that adds a device while another known device is no longer listed",
    "the device that is not listed any more is forgotten",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", BOB, 2)
c.must("update_device_list", "A", BOB, {3: None})
c.publish("A", BOB, 3)
got = {d.device_id: dict(d.active) for d in c.must("get_device_information", BOB)}
expect(got == {1: {"A": False}, 2: {"A": False}, 3: {"A": True}}, f"{got}")
""")

bug("c13-label-erased-by-new-backend", "C13", [(SM,
"""                # Add the namespace if required
                if namespace not in namespaces:
                    namespaces.add(namespace)
""",
"""                # Add the namespace if required
                if namespace not in namespaces:
                    if len(namespaces) == 1:
                        await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
                    namespaces.add(namespace)
""")],
    "a labelled device that is later listed by a second backend, which doesn't support labels",
    "the label is erased by an update without label",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1, label="phone")
c.device("B", BOB, 1, label=None)
got = [d.label for d in c.must("get_device_information", BOB)]
expect(got == ["phone"], f"label {got}")
""")

bug("c14-label-as-listed", "C14", [(SM,
"""            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
""",
"""            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just() if any(device_list.values()) or len(device_list) == 0 else None
""")],
    "an own device list without this device on which no other device has a label",
    "this device is added without its label",
"""
c = Client()
expect(c.create("A", label="laptop") == "ok", "create")
c.must("update_device_list", "A", ME, {5: None})
expect(c.w.lists[("A", ME)] == {5: None, c.own: "laptop"}, f"{c.w.lists}")
""")

bug("c15-ids-of-last-backend", "C15", [(SM,
"""            device_ids = cast(FrozenSet[int], frozenset()).union(*[
                frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())
                for backend
                in self.__backends
            ])
""",
"""            device_ids: FrozenSet[int] = frozenset()
            for backend in self.__backends:
                device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
                device_ids = frozenset(device_list) or device_ids
""")],
    "several backends, and a device id drawn that is only on the device list of one of the first backends",
    "the device id collides with an existing device of the account",
"""
for seed in range(30):
    c = Client(idmin=1, idmax=5, seed=seed)
    c.w.lists[("A", ME)] = {1: None, 2: None}
    c.w.lists[("B", ME)] = {3: None}
    expect(c.create("A", "B") == "ok", "create")
    expect(c.own == 4, f"device id {c.own} is taken")
""")

bug("c15-id-stored-first", "C15", [(SM,
"""            # Finally store the device id once the other setup is done
            await self.__storage.store("/own_device_id", self.__own_device_id)
""",
"""            # Finally, remember that the setup is done
"""), (SM,
"""            # Store the device information for this device. No backend is initialized at this point, the
""",
"""            # Store the device id right away, such that it is kept whatever happens
            await self.__storage.store("/own_device_id", self.__own_device_id)

            # Store the device information for this device. No backend is initialized at this point, the
""")],
    "a crash during the first load right after the device id was stored",
    "every later load fails, because the information about this device is incomplete",
"""
n = 0
while True:
    n += 1
    c = Client()
    if c.create("A", f={"crash": n}) == "ok":
        break
    x = c.create("A")
    expect(x == "ok", f"load after crash at operation {n}: {x}")
    own, _ = c.must("get_own_device_information")
    expect(own.device_id == c.own, "own device")
""")

bug("c16-publish-only-new-keys", "C16", [(SM,
"""                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))
""",
"""                    # Publish the bundle of the new backend
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await self._upload_bundle(await backend.get_bundle(
                            self.__own_bare_jid,
                            self.__own_device_id
                        ))
""")],
    "a load whose bundle upload fails or that dies after the pre keys were generated, followed by another load",
    "the second load succeeds and lists this device without ever publishing a bundle",
"""
c = Client()
expect(c.create("A", f={"ub": ["A"]}) == "BundleUploadFailed", "create")
expect(c.create("A") == "ok", "create")
expect(c.bundle("A") is not None and c.bundle("A").pks, "no bundle published")
expect(c.own in c.w.lists[("A", ME)], "not listed")
""")

bug("c17-bundle-first", "C17", [(SM,
"""        # Second half of online data removal: delete the bundle of this device. This step has low priority,
        # thus done last.
        await self._delete_bundle(namespace, self.__own_device_id)
""",
"""        # Online data is gone at this point
"""), (SM,
"""        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        device, _ =""",
"""        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        await self._delete_bundle(namespace, self.__own_device_id)
        device, _ =""")],
    "the device list upload fails (or the process dies) while a backend is purged",
    "this device stays listed for a backend whose bundle is gone",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
x, r = c.call("purge_backend", "A", f={"ul": ["A"]})
expect(x == "DeviceListUploadFailed", x)
expect(c.own not in c.w.lists[("A", ME)] or c.bundle("A") is not None, "listed without bundle")
""")

bug("c17-list-before-bundle", "C17", [(SM,
"""                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

                    # Trigger a refresh of the own device list of the new backend, this will result in this
                    # device being added to the lists and the lists republished.
                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
""",
"""                    # Trigger a refresh of the own device list of the new backend, this will result in this
                    # device being added to the lists and the lists republished.
                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    if len(known_namespaces) == 0:
                        await self._upload_bundle(bundle)
                        await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
                    else:
                        await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
                        await self._upload_bundle(bundle)
""")],
    "a backend that is added to an existing installation, while publishing its bundle fails",
    "this device is listed for the new backend without a published bundle",
"""
c = Client()
expect(c.create("A") == "ok", "create")
x = c.create("A", "B", f={"ub": ["B"]})
expect(x == "BundleUploadFailed", x)
c.own = c.w.own_id()
expect(c.own not in c.w.lists.get(("B", ME), {}) or c.bundle("B") is not None, "listed without bundle")
""")

bug("c18-bundle-left", "C18", [(SM,
"""        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
""",
"""        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            if namespace not in active:
                return
        else:
""")],
    "purging a backend whose first purge failed when deleting the bundle",
    "the repeated purge succeeds without deleting the bundle",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
x, r = c.call("purge_backend", "A", f={"db": ["A"]})
expect(x == "BundleDeletionFailed", x)
c.must("purge_backend", "A")
expect(c.bundle("A") is None, "bundle is still published")
""")

bug("c18-list-from-cache", "C18", [(SM,
"""            await self._upload_device_list(namespace, device_list)

        # Synchronize the offline""",
"""            _, other_devices = await self.get_own_device_information()
            known_device_ids = frozenset(other_device.device_id for other_device in other_devices)
            await self._upload_device_list(namespace, {
                device_id: label for device_id, label in device_list.items() if device_id in known_device_ids
            })

        # Synchronize the offline""")],
    "another own device that appeared on the published list without an update having been processed, or without "
    "obtainable bundle",
    "the entry of the other device is removed from the published device list",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.w.lists[("A", ME)][5] = "tablet"
c.must("purge_backend", "A")
expect(c.w.lists[("A", ME)] == {5: "tablet"}, f"{c.w.lists}")
""")

bug("c19-inactive-devices-kept", "C19", [(SM,
"""        # Get the set of devices to delete
        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
""",
"""        # Get the set of devices to delete
        device_list = frozenset([
            device_id
            for device_id
            in (await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([])
            if any((await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just().values())
        ])
""")],
    "purging an account with a device that is not active any more",
    "the identity key of the inactive device and its trust level survive the purge",
"""
c = Client()
expect(c.create("A") == "ok", "create")
for d in (1, 2):
    c.device("A", BOB, d)
c.must("get_device_information", BOB)
c.must("update_device_list", "A", BOB, {2: None})
c.must("purge_bare_jid", BOB)
left = [k for k in c.w.data if BOB in k]
expect(not left, f"{left}")
""")

bug("c19-skip-keyless-devices", "C19", [(SM,
"""        # Remove backend-specific data
        for backend in self.__backends:
            await backend.purge_bare_jid(bare_jid)
""",
"""        # Remove backend-specific data
        for backend in self.__backends:
            if any([
                namespace == backend.namespace
                for device_id in device_list
                for namespace, active in (await storage.load_dict(
                    f"/devices/{bare_jid}/{device_id}/active",
                    bool
                )).maybe({}).items()
                if active
            ]):
                await backend.purge_bare_jid(bare_jid)
""")],
    "purging an account all of whose devices were deactivated for a backend",
    "the sessions with the account's devices survive the purge",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
c.must("update_device_list", "A", BOB, {})
c.must("purge_bare_jid", BOB)
expect(c.session("A", BOB, 1) is None, "session survives")
""")

bug("c20-latest-rotation", "C20", [(SM,
"""                    next_check = min(next_check, next_rotation)
""",
"""                    next_check = next_rotation
""")],
    "two backends whose signed pre keys have different ages, the older one loaded first",
    "the older signed pre key is rotated too late",
"""
import asyncio
c = Client()
P = 1000
expect(c.create("A", period=P) == "ok", "create")
c.w.loop.run_until_complete(asyncio.sleep(600))
expect(c.create("A", "B", period=P) == "ok", "create")
worst = 0
async def watch():
    global worst
    for _ in range(200):
        await asyncio.sleep(10)
        worst = max(worst, await c.backs[0].signed_pre_key_age())
c.w.loop.run_until_complete(watch())
expect(worst <= P + 75, f"signed pre key became {worst} s old")
""")

bug("c20-retry-capped-at-start", "C20", [(SM,
"""                            retry_delay *= 2  # Double the retry delay
                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
""",
"""                            if retry_delay < 60 * 60:  # Cap the retry delay at one hour
                                retry_delay *= 2  # Double the retry delay
""")],
    "publication of a rotated signed pre key failing seven times or more in a row",
    "the retry delay exceeds one hour",
"""
import asyncio
c = Client()
tries = []
P = 10 ** 6
expect(c.create("A", period=P) == "ok", "create")
c.w.f = {"ub": ["A"]}
orig = c.w.e
def record(k, ns, ok, **kw):
    if k == "ub":
        tries.append(c.w.now())
    orig(k, ns, ok, **kw)
c.w.e = record
c.w.loop.run_until_complete(asyncio.sleep(P + 40000))
gaps = [round(b - a) for a, b in zip(tries, tries[1:])]
expect(gaps[:9] == [60, 120, 240, 480, 960, 1920, 3600, 3600, 3600], f"retry delays {gaps}")
""")

bug("c21-only-first-mismatch", "C21", [(SM,
"""                    "Online bundle data differs from offline bundle data."
                )

                await self._upload_bundle(local_bundle)
""",
"""                    "Online bundle data differs from offline bundle data."
                )

                await self._upload_bundle(local_bundle)
                break
""")],
    "published bundles of two loaded backends that both differ from the local ones",
    "only the bundle of the first one is restored",
"""
c = Client()
expect(c.create("A", "B", "C") == "ok", "create")
good = {n: c.bundle(n) for n in "ABC"}
for n in "ABC":
    c.publish(n, ME, c.own, who="old")
c.must("ensure_data_consistency")
expect(all(c.bundle(n) == good[n] for n in "ABC"), "bundle not restored")
""")

bug("c21-size-compared", "C21", [(SM,
"""                upload_bundle = remote_bundle != local_bundle
""",
"""                upload_bundle = (
                    remote_bundle.identity_key != local_bundle.identity_key
                    or remote_bundle.device_id != local_bundle.device_id
                    or hash(remote_bundle) != hash(local_bundle) and remote_bundle.namespace != backend.namespace
                )
""")],
    "a published bundle that carries the right identity key but outdated pre keys",
    "the outdated bundle is not replaced",
"""
c = Client()
expect(c.create("A") == "ok", "create")
good = c.bundle("A")
c.w.bundles[("A", ME, c.own)] = SymBundle("A", ME, c.own, good.identity_key, good.spk, list(good.pks)[1:])
c.must("ensure_data_consistency")
expect(c.bundle("A") == good, "outdated bundle not replaced")
""")

bug("c22-delete-forgets", "C22", [("storage.py",
"""            self.__cache[key] = Nothing()
""",
"""            self.__cache.pop(key, None)
""")],
    "a load that is in flight while the same key is deleted",
    "the cache keeps returning the value that was deleted",
"""
import asyncio
from omemo.storage import Just, Nothing, Storage
class Slow(Storage):
    def __init__(self):
        super().__init__()
        self.d = {}
        self.slow = None
    async def _load(self, key):
        r = Just(self.d[key]) if key in self.d else Nothing()
        if self.slow is not None:
            await self.slow.wait()
        return r
    async def _store(self, key, value):
        self.d[key] = value
    async def _delete(self, key):
        self.d.pop(key, None)
async def main():
    s = Slow()
    s.d["k"] = "old"
    s.slow = asyncio.Event()
    t = asyncio.ensure_future(s.load("k"))
    await asyncio.sleep(0)
    await s.delete("k")
    s.slow.set()
    await t
    expect((await s.load("k")).is_nothing, "deleted value is still visible")
asyncio.run(main())
""")

bug("c22-write-ahead", "C22", [("storage.py",
"""        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""",
"""        if self.__cache is not None:
            self.__cache[key] = Just(value)
        await self._store(key, value)
""")],
    "a write that fails",
    "the cache shows a value that was never stored",
"""
import asyncio
from omemo.storage import Just, Nothing, Storage, StorageException
class Failing(Storage):
    async def _load(self, key):
        return Just("old")
    async def _store(self, key, value):
        raise StorageException()
    async def _delete(self, key):
        raise StorageException()
async def main():
    s = Failing()
    for op in (lambda: s.store("k", "new"), lambda: s.delete("k")):
        try:
            await op()
        except StorageException:
            pass
        expect((await s.load("k")).maybe(None) == "old", "failed write is visible")
asyncio.run(main())
""")

bug("c22-maybe-alias", "C22", [("storage.py",
"""    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)
""",
"""    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.__value
""")],
    "a caller that modifies a list it got from a cached value with a default",
    "the modification shows up for other readers although it was never stored",
"""
import asyncio
from omemo.storage import Just, Nothing, Storage
class Mem(Storage):
    async def _load(self, key):
        return Just(["a"])
    async def _store(self, key, value):
        pass
    async def _delete(self, key):
        pass
async def main():
    s = Mem()
    (await s.load("k")).maybe([]).append("b")
    expect((await s.load("k")).maybe([]) == ["a"], "value was modified")
asyncio.run(main())
""")

bug("c23-stored-before-sent", "C23", [(SM,
"""                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)

                    # Store the replacement
                    await backend.store_session(session)
""",
"""                    # Store the replacement
                    await backend.store_session(session)

                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)
""")],
    "sending the notification about a replaced session fails",
    "the old session is gone although the other side was not notified",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
old = c.session("A", BOB, 1)
dev = next(iter(c.must("get_device_information", BOB)))
x, r = c.call("replace_sessions", dev, f={"send": [["A", BOB]]})
expect(x == "ok" and list(r) == ["A"], x)
expect(c.session("A", BOB, 1) == old, "session replaced")
""")

bug("c23-error-ends-replacement", "C23", [(SM,
"""                    unsuccessful[backend.namespace] = e

        logging""",
"""                    unsuccessful[backend.namespace] = e
                    if isinstance(e, MessageSendingFailed):
                        break

        logging""")],
    "replacing the sessions of a device that has sessions for two backends, with sending failing for the first one only",
    "the session of the second backend is neither replaced nor reported",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
for n in "AB":
    c.device(n, BOB, 1)
    c.must("decrypt", c.first(n, BOB, 1))
old = c.session("B", BOB, 1)
dev = next(iter(c.must("get_device_information", BOB)))
x, r = c.call("replace_sessions", dev, f={"send": [["A", BOB]]})
expect(x == "ok" and list(r) == ["A"], x)
expect(c.session("B", BOB, 1)["sid"] != old["sid"], "session of B not replaced")
""")

bug("c24-list-before-devices", "C24", [(SM,
"""        # If there are unknown devices in the new device list, update the list of known devices. Do this as
        # the last step to ensure data consistency.
        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
""",
"""        # The list of known devices is up to date at this point
"""), (SM,
"""        # Add new device information entries for new devices
        for device_id in new_devices:
""",
"""        # If there are unknown devices in the new device list, update the list of known devices.
        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        # Add new device information entries for new devices
        for device_id in new_devices:
""")],
    "a crash or storage failure while a device list update with new devices is processed",
    "the account's data is incomplete and everything involving it fails from then on",
"""
n = 0
while True:
    n += 1
    c = Client()
    expect(c.create("A") == "ok", "create")
    for d in (1, 2):
        c.publish("A", BOB, d)
    x, r = c.call("update_device_list", "A", BOB, {1: None, 2: "x"}, f={"crash": n})
    if x == "ok":
        break
    expect(c.create("A") == "ok", "create")
    c.must("get_device_information", BOB)
    c.must("update_device_list", "A", BOB, {1: None, 2: "x"})
""")

bug("c25-stop-at-failed-bundle", "C25", [(SM,
"""                    except BundleDownloadFailed:
""",
"""                    except BundleDownloadFailed:
                        namespaces = namespaces - { namespace }
""")],
    "a device of two backends, the bundle of one of which can't be downloaded at the moment",
    "the device is reported without the backend whose bundle was not available",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
for n in "AB":
    c.device(n, BOB, 1, trust=None)
for n in "AB":
    c2 = Client()
    expect(c2.create("A", "B") == "ok", "create")
    for m in "AB":
        c2.device(m, BOB, 1, trust=None)
    d = c2.must("get_device_information", BOB, f={"dlb": [[n, BOB, 1, "fail"]]})
    expect([x.namespaces for x in d] == [frozenset("AB")], f"{d}")
""")

bug("c25-trust-default", "C25", [(SM,
"""            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
""",
"""            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe((await storage.load_primitive(
                f"/trust/{self.__own_bare_jid}/"
                f"{base64.urlsafe_b64encode(self.__identity_key_pair.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name))
""")],
    "a restart with another name for the undecided trust level, or a trust level assigned to the own identity key",
    "devices without assigned trust are reported with the wrong trust level",
"""
c = Client()
expect(c.create("A", und="undecided") == "ok", "create")
c.device("A", BOB, 1, trust=None)
expect(c.create("A", und="new") == "ok", "create")
d = c.must("get_device_information", BOB)
expect([x.trust_level_name for x in d] == ["new"], f"{d}")
""")

bug("c26-one-list-for-all", "C26", [(SM,
"""            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            device_list[self.__own_device_id] = own_label
""",
"""            device_list = {
                device_id: label
                for device_id, label
                in (await self._download_device_list(backend.namespace, self.__own_bare_jid)).items()
                if label is not None or device_id == self.__own_device_id or own_label is not None
            }
            device_list[self.__own_device_id] = own_label
""")],
    "removing the own label while another own device without label is on the published device list",
    "the entry of the other device is lost",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.w.lists[("A", ME)].update({5: None, 6: "tablet"})
c.must("set_own_label", None)
expect(c.w.lists[("A", ME)] == {5: None, 6: "tablet", c.own: None}, f"{c.w.lists}")
""")

bug("c27-kex-only-once", "C27", [(SM,
"""                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))
""",
"""                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        and session.sending_chain_length <= 3
                        else None
                    )))
""")],
    "the first three messages of a session are lost or delayed behind the fourth one",
    "the fourth message can't be decrypted because it carries no key exchange",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
for n in range(1, 6):
    x, r = c.encrypt([BOB])
    expect(x == "ok", x)
    expect(all(k[3] for k in rows(r[0])), f"message {n} without key exchange")
""")

bug("c28-caller-list-extended", "C28", [(SM,
"""        # Copy to make sure the original is not modified
        device_list = dict(device_list)

        new_device_list""",
"""        new_device_list""")],
    "an update with an own device list that lacks this device",
    "the dictionary passed by the application is modified",
"""
c = Client()
expect(c.create("A") == "ok", "create")
l = {5: None}
c.must("update_device_list", "A", ME, l)
expect(l == {5: None}, f"argument modified: {l}")
""")

bug("c28-backends-alias", "C28", [(SM,
"""        self.__backends = list(backends)  # Copy to make sure the original is not modified
""",
"""        self.__backends = backends
""")],
    "an application that modifies its list of backends after loading",
    "the library's set of loaded backends changes with it",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.backs.pop()
c.device("B", BOB, 1)
x, r = c.encrypt([BOB])
expect(x == "ok", x)
""")

bug("c29-zero-message-limit", "C29", [("backend.py",
"""        if max_num_per_message_skipped_keys == 0 and max_num_per_session_skipped_keys != 0:
""",
"""        if not max_num_per_message_skipped_keys and max_num_per_session_skipped_keys == 0:
            max_num_per_message_skipped_keys = max_num_per_message_skipped_keys or 1

        if max_num_per_message_skipped_keys == 0 and max_num_per_session_skipped_keys != 0:
""")],
    "a per-session limit of 0 with the per-message limit 0 or unset",
    "a documented configuration is refused",
"""
class B(SymBackend):
    def __init__(self, *a):
        omemo.Backend.__init__(self, *a)
for a in ((0, 0), (0, None), (0,), (5, 5), (5, 1), (5, None), ()):
    b = B(*a)
    s = a[0] if a else 1000
    m = a[1] if len(a) > 1 and a[1] is not None else s
    expect((b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys) == (s, m), f"{a}")
for a in ((5, 0), (5, 6), (0, 1)):
    try:
        B(*a)
    except ValueError:
        continue
    expect(False, f"{a} accepted")
""")

bug("c30-sessions-on-self", "C30", [(SM,
"""        sessions: Set[Tuple[Backend, Session]] = set()
""",
"""        self.__modified_sessions: Set[Tuple[Backend, Session]] = set()
"""), (SM,
"""                    sessions.add((backend, session))
""",
"""                    self.__modified_sessions.add((backend, session))
"""), (SM,
"""        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
""",
"""        while self.__modified_sessions:
            # Persist the session as the final step
            backend, session = self.__modified_sessions.pop()
            await backend.store_session(session)
""")],
    "two overlapping encryptions for different contacts, the second starting to encrypt while the first one still downloads a bundle or accesses the storage",
    "a session used for a sent message is not stored (message keys are used again)",
"""
import asyncio, random
lost = False
for seed in range(40):
    c = Client()
    expect(c.create("A") == "ok", "create")
    for j in (BOB, EVE):
        for d in (1, 2):
            c.device("A", j, d)
    c.must("after_history_sync")
    async def both():
        return await asyncio.gather(*(c.w.mgr.encrypt(frozenset({j}), {"A": b"x"}) for j in (BOB, EVE)))
    c.w.f, c.w.n, c.w.kinds, c.w.eff, c.w.dec = {}, 0, [], [], {}
    c.w.sched = random.Random(seed)
    x, r = c.w.run(both())
    c.w.sched = None
    expect(x == "ok", x)
    for j in (BOB, EVE):
        for d in (1, 2):
            lost |= c.session("A", j, d) is None
expect(not lost, "a session was not stored")
""")

bug("c30-one-trust-dialog", "C30", [(SM,
"""        if len(undecided_devices) > 0:
            await self._make_trust_decision(undecided_devices, identifier)
""",
"""        if len(undecided_devices) > 0:
            # Don't bother the user with a second decision while one is still pending
            if not getattr(self, "_trust_decision_pending", False):
                self._trust_decision_pending = True
                try:
                    await self._make_trust_decision(undecided_devices, identifier)
                finally:
                    self._trust_decision_pending = False
""")],
    "an encryption for another contact with undecided devices while a trust decision is pending",
    "the second call fails with StillUndecided, the application is never asked",
"""
import asyncio, random
bad = []
for seed in range(10):
    c = Client()
    expect(c.create("A") == "ok", "create")
    for j in (BOB, EVE):
        c.device("A", j, 1, trust=None)
    async def both():
        return await asyncio.gather(*(c.w.mgr.encrypt(frozenset({j}), {"A": b"x"}) for j in (BOB, EVE)))
    c.w.f, c.w.n, c.w.kinds, c.w.eff, c.w.dec = {}, 0, [], [], {"all": "trusted"}
    c.w.sched = random.Random(seed)
    x, r = c.w.run(both())
    c.w.sched = None
    bad += [x] if x != "ok" else []
expect(not bad, f"{bad}")
""")

bug("c15-wrong-default-range", "C15", [(SM,
"""    DEVICE_ID_MAX = 2 ** 31 - 1
""",
"""    DEVICE_ID_MAX = 2 ** 32 - 1
""")],
    "a first load that happens to draw a large number",
    "the device id is outside of the documented default range",
"""
class W(World):
    pass
for seed in range(20):
    c = Client(idmin=None, idmax=None, seed=seed)
    expect(c.create("A") == "ok", "create")
    expect(1 <= c.own <= 2 ** 31 - 1, f"id {c.own}")
    c.close()
""")

bug("c31-clean-slate", "C31", [(SM,
"""        self.__identity_key_pair = await IdentityKeyPair.get(storage)
        self.__synchronizing = True
""",
"""        self.__identity_key_pair = await IdentityKeyPair.get(storage)
        self.__synchronizing = True

        # Start the history synchronization from a clean slate
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""")],
    "a restart during history synchronization, between two key exchanges that use the same pre key",
    "the load deletes pre keys that the messages still to be synchronized need",
"""
res = []
for restart in (False, True):
    c = Client()
    expect(c.create("A") == "ok", "create")
    c.device("A", BOB, 1)
    c.device("A", EVE, 1)
    k1 = c.kex("A", BOB, 1)
    k2 = c.kex("A", EVE, 1, pk=k1.pk)
    m2 = c.first("A", EVE, 1, k2)
    c.must("decrypt", c.first("A", BOB, 1, k1))
    if restart:
        expect(c.create("A") == "ok", "create")
    res.append(c.call("decrypt", m2)[0])
expect(res[0] == res[1] == "ok", f"{res}")
""")

bug("c31-label-on-load", "C31", [(SM,
"""        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
        device, _ = await self.get_own_device_information()
""",
"""        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
        device, _ = await self.get_own_device_information()
        if initial_own_label is not None and device.label != initial_own_label:
            await self.set_own_label(initial_own_label)
""")],
    "loading again (with the same arguments) after the label of this device was changed",
    "the load publishes the initial label again",
"""
c = Client()
expect(c.create("A", label="first") == "ok", "create")
c.must("set_own_label", "second")
expect(c.create("A", label="first") == "ok", "create")
expect(not [e for e in c.w.eff if e["k"] == "ul"], "the load published a device list")
expect(c.w.lists[("A", ME)][c.own] == "second", f"{c.w.lists}")
""")

bug("c31-same-list-again", "C31", [(SM,
"""        storage = self.__storage

        # This isn't strictly necessary, but good for consistency
        if namespace not in frozenset(backend.namespace for backend in self.__backends):
            raise UnknownNamespace(f"The backend handling the namespace {namespace} is not currently loaded.")

        # Copy to make sure the original is not modified
        device_list = dict(device_list)
""",
"""        storage = self.__storage

        # This isn't strictly necessary, but good for consistency
        if namespace not in frozenset(backend.namespace for backend in self.__backends):
            raise UnknownNamespace(f"The backend handling the namespace {namespace} is not currently loaded.")

        # Servers repeat the last device list on every login, don't process it over and over again
        if not hasattr(self, "_seen_device_lists"):
            self._seen_device_lists: Dict[Tuple[str, str], Dict[int, Optional[str]]] = {}
        if bare_jid != self.__own_bare_jid and self._seen_device_lists.get((namespace, bare_jid)) == device_list:
            return
        self._seen_device_lists[(namespace, bare_jid)] = dict(device_list)

        # Copy to make sure the original is not modified
        device_list = dict(device_list)
""")],
    "an unchanged device list of an account that was purged since it was last processed, without a restart in between",
    "the account stays unknown unless the library is restarted",
"""
res = []
for restart in (False, True):
    c = Client()
    expect(c.create("A") == "ok", "create")
    c.must("update_device_list", "A", BOB, {1: None})
    c.must("purge_bare_jid", BOB)
    if restart:
        expect(c.create("A") == "ok", "create")
    c.publish("A", BOB, 1)
    c.must("update_device_list", "A", BOB, {1: None})
    res.append(len(c.must("get_device_information", BOB)))
expect(res == [1, 1], f"{res}")
""")

ST = "storage.py"
IK = "identity_key_pair.py"
STORE = """
import asyncio, json
from omemo.storage import Just, Nothing, Storage
class Disk(Storage):
    def __init__(self, plain):
        super().__init__(plain)
        self.d = {}
    async def _load(self, k):
        return Just(json.loads(self.d[k])) if k in self.d else Nothing()
    async def _store(self, k, v):
        self.d[k] = json.dumps(v)
    async def _delete(self, k):
        self.d.pop(k, None)
"""

bug("c32-empty-bytes", "C32", [(ST,
"""            if isinstance(value, str):
                return base64.urlsafe_b64decode(value.encode("ASCII"))
""",
"""            if value and isinstance(value, str):
                return base64.urlsafe_b64decode(value.encode("ASCII"))
""")],
    "an empty byte string",
    "stored bytes can't be loaded again",
STORE + """
for n in range(0, 40):
    for plain in (True, False):
        d = Disk(plain)
        v = bytes(range(n))
        asyncio.run(d.store_bytes("k", v))
        try:
            r = asyncio.run(d.load_bytes("k")).from_just()
        except Exception as e:
            r = repr(e)
        expect(r == v, f"{n}: {r}")
""")

bug("c32-first-element-only", "C32", [(ST,
"""            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):
                return cast(List[PrimitiveTypeT], value)
""",
"""            # Lists are homogenous
            if isinstance(value, list) and all(isinstance(element, primitive) for element in value[:1]):
                return cast(List[PrimitiveTypeT], value)
""")],
    "a stored list of mixed types whose first element has the requested type",
    "a list that is not of the requested type is returned",
STORE + """
d = Disk(False)
asyncio.run(d.store("k", [1, "two"]))
try:
    r = asyncio.run(d.load_list("k", int)).from_just()
    expect(False, f"{r}")
except TypeError:
    pass
""")

bug("c32-falsy-optional", "C32", [(ST,
"""            if value is None or isinstance(value, primitive):
""",
"""            if not value or isinstance(value, primitive):
""")],
    "a falsy value of another type loaded as optional",
    "a value that is not of the requested type is returned",
STORE + """
d = Disk(False)
asyncio.run(d.store("k", 0))
try:
    r = asyncio.run(d.load_optional("k", str)).from_just()
    expect(False, f"{r!r}")
except TypeError:
    pass
""")

bug("c33-sign-bit", "C33", [(IK,
"""        return xeddsa.priv_to_ed25519_pub(self.__priv)
""",
"""        return xeddsa.curve25519_pub_to_ed25519_pub(xeddsa.priv_to_curve25519_pub(self.__priv), False)
""")],
    "a private key whose public Ed25519 key has the sign bit set",
    "the private form has another identity key than the pair it was derived from",
"""
import xeddsa.bindings as xeddsa
from omemo.identity_key_pair import IdentityKeyPairSeed
for n in range(50):
    s = ik(f"seed{n}")
    a = IdentityKeyPairSeed(s)
    expect(a.as_priv().identity_key == a.identity_key, f"seed {n}")
""")

bug("c33-stale-flag", "C33", [(IK,
"""            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
""",
"""            # Don't write what is already there
            if (await storage.load_primitive("/ikp/is_seed", bool)).is_nothing:
                await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
""")],
    "an interrupted migration of a private key, which left the flag but no key",
    "the generated seed is taken for a private key from the next load on: another identity",
"""
import asyncio, json
from omemo.identity_key_pair import IdentityKeyPair
from omemo.storage import Just, Nothing, Storage
class Disk(Storage):
    d = {}
    async def _load(self, k):
        return Just(json.loads(self.d[k])) if k in self.d else Nothing()
    async def _store(self, k, v):
        self.d[k] = json.dumps(v)
    async def _delete(self, k):
        self.d.pop(k, None)
Disk.d["/ikp/is_seed"] = "false"
a = asyncio.run(IdentityKeyPair.get(Disk()))
b = asyncio.run(IdentityKeyPair.get(Disk()))
expect(a.identity_key == b.identity_key and a.is_seed == b.is_seed, "the identity changed")
""")

bug("c33-shared-private-form", "C33", [(IK,
"""        return IdentityKeyPairPriv(xeddsa.seed_to_priv(self.__seed))
""",
"""        # The derivation is expensive
        if IdentityKeyPairSeed._priv is None:
            IdentityKeyPairSeed._priv = IdentityKeyPairPriv(xeddsa.seed_to_priv(self.__seed))
        return IdentityKeyPairSeed._priv
"""), (IK,
"""        self.__seed = seed

""",
"""        self.__seed = seed

    _priv = None

""")],
    "two accounts (two key pairs) in one process",
    "the second key pair is converted to the private key of the first one",
"""
from omemo.identity_key_pair import IdentityKeyPairSeed
for n in range(3):
    a = IdentityKeyPairSeed(ik(f"seed{n}"))
    expect(a.as_priv().identity_key == a.identity_key, f"seed {n}")
""")

bug("c34-activity-of-strangers", "C34", [(SM,
"""                # Update the status if required
                if namespace in namespaces:
                    if active[namespace] is True:
                        active[namespace] = False
                        await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
""",
"""                # Update the status if required
                if namespace in namespaces or len(active) > 1:
                    if active[namespace] is True:
                        active[namespace] = False
                        await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
""")],
    "a device that two other backends know, missing on the device list of a third backend",
    "update_device_list raises KeyError",
"""
c = Client()
expect(c.create("A", "B", "C") == "ok", "create")
c.device("A", BOB, 1)
c.device("B", BOB, 1)
x, _ = c.call("update_device_list", "C", BOB, {2: None})
expect(x == "ok", f"update: {x}")
""")

bug("c34-bundle-vanished", "C34", [(SM,
"""                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    # Those failures""",
"""                except (BundleDownloadFailed, KeyExchangeFailed) as e:
                    # Those failures""")],
    "a trusted device without session, whose bundle has been deleted since its identity key was learned",
    "encrypt raises BundleNotFound instead of reporting the device",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", BOB, 2)
c.must("get_device_information", BOB)
c.w.bundles.pop(("A", BOB, 2))
x, _ = c.encrypt([BOB], ("A",))
expect(x == "ok", f"encrypt: {x}")
""")

bug("c34-own-carbon", "C34", [(SM,
"""        # Check if there is key material for us
        try:
            encrypted_key_material, key_exchange = next(filter(
                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
                message.keys
            ))
        except StopIteration:
""",
"""        # Check if there is key material for us
        try:
            own_keys = { k[0].device_id: k for k in message.keys if k[0].bare_jid == self.__own_bare_jid }
            if len(own_keys) == 0:
                raise StopIteration()
            encrypted_key_material, key_exchange = own_keys[self.__own_device_id]
        except StopIteration:
""")],
    "a message that is encrypted for other devices of the own account, but not for this one",
    "decrypt raises KeyError instead of MessageNotForUs",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
x, _ = c.call("decrypt", c.first("A", BOB, 1, to=(ME, c.own + 1)))
expect(x == "MessageNotForUs", f"decrypt: {x}")
""")

bug("c35-leading-zeros", "C35", [(SM,
"""        ik_hex_string = xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex()
        group_size = 8

        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string), group_size) ]
""",
"""        curve25519_pub = xeddsa.ed25519_pub_to_curve25519_pub(identity_key)

        return [
            format(int.from_bytes(curve25519_pub[i:i + 4], "big"), "x").rjust(7, "0").rjust(8)
            for i in range(0, len(curve25519_pub), 4)
        ]
""")],
    "an identity key with a group that starts with the digit 0",
    "the digit is shown as a space",
"""
import xeddsa.bindings as xeddsa
from omemo.session_manager import SessionManager
for n in range(100):
    k = xeddsa.seed_to_ed25519_pub(ik(f"k{n}"))
    fp = SessionManager.format_identity_key(k)
    expect("".join(fp) == xeddsa.ed25519_pub_to_curve25519_pub(k).hex(), f"{fp}")
""")

bug("c35-sign-bit-shown", "C35", [(SM,
"""        ik_hex_string = xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex()
""",
"""        curve25519_pub = bytearray(xeddsa.ed25519_pub_to_curve25519_pub(identity_key))
        curve25519_pub[-1] |= identity_key[-1] & 0x80  # Keep the sign, keys are different without it
        ik_hex_string = curve25519_pub.hex()
""")],
    "an identity key whose sign bit is set",
    "the last group of the fingerprint is wrong",
"""
import xeddsa.bindings as xeddsa
from omemo.session_manager import SessionManager
for n in range(20):
    k = xeddsa.priv_to_ed25519_pub(xeddsa.seed_to_priv(ik(f"k{n}")))
    fp = SessionManager.format_identity_key(k)
    expect("".join(fp) == xeddsa.ed25519_pub_to_curve25519_pub(k).hex(), f"{fp}")
""")

bug("c04-same-id-removed", "C04", [(SM,
"""                    devices.remove(device)
                    encryption_errors.add(EncryptionError(
""",
"""                    devices = { dev for dev in devices if dev.device_id != device.device_id }
                    encryption_errors.add(EncryptionError(
""")],
    "devices of two recipients with the same device id, the bundle of one of which can't be downloaded, while its "
    "account has another device",
    "the other recipient is reported to have no eligible devices",
"""
for d in ({BOB: 1, EVE: 1},):
    c = Client()
    expect(c.create("A") == "ok", "create")
    c.device("A", BOB, 1)
    c.device("A", BOB, 2)
    c.device("A", EVE, 1)
    for j, i in ((BOB, 1), (BOB, 2), (EVE, 1)):
        c.must("get_device_information", j)
    c.w.bundles.pop(("A", BOB, 1))
    x, r = c.encrypt([BOB, EVE])
    expect(x == "ok", x)
    expect([k[1:3] for k in rows(r[0])] == [(BOB, 2), (EVE, 1)], f"{rows(r[0])}")
""")

bug("c06-own-devices-trusted", "C06", [(SM,
"""        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(
""",
"""        if (
            device.bare_jid != self.__own_bare_jid
            and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED
        ):
            raise SenderDistrusted(
""")],
    "a message of a distrusted device of the own account",
    "the message of a distrusted device is decrypted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.w.lists.setdefault(("A", ME), {})
c.publish("A", ME, 7)
c.w.lists[("A", ME)][7] = None
c.must("refresh_device_list", "A", ME)
c.must("get_device_information", ME)
c.must("set_trust", ME, ik(ME + "7"), "blocked")
x, _ = c.call("decrypt", c.first("A", ME, 7))
expect(x == "SenderDistrusted", x)
""")

bug("c09-kept-if-session-existed", "C09", [(SM,
"""        # If this message was a key exchange, take care of pre key hiding/deletion.
        if key_exchange is not None:
            bundle_changed: bool
            if self.__synchronizing:
""",
"""        # If this message was a key exchange that built a session, take care of pre key hiding/deletion.
        if key_exchange is not None:
            bundle_changed: bool
            if (session.receiving_chain_length or 0) > 1:
                bundle_changed = False
            elif self.__synchronizing:
""")],
    "the first message of the session to arrive is not the first one that was sent (or the client died before the "
    "pre key was deleted)",
    "the consumed pre key remains usable and published",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
k = c.kex("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1, kex=k, n=3))
expect(k.pk not in c.bundle("A").pks, "consumed pre key still published")
""")

bug("c10-refill-after-sync", "C10", [(SM,
"""                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
""",
"""                if num_visible_pre_keys <= self.__pre_key_refill_threshold and not (
                    self.__synchronizing and num_visible_pre_keys > 25
                ):
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
""")],
    "key exchanges during history synchronization",
    "the pre keys are not refilled at the configured threshold",
"""
c = Client()
expect(c.create("A", thr=99) == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
expect(len(c.bundle("A").pks) == 100, f"{len(c.bundle('A').pks)} pre keys")
""")

bug("c11-mode-left-last", "C11", [(SM,
"""        self.__synchronizing = False

        # Delete pre keys that were hidden while in history synchronization mode
""",
"""        # Delete pre keys that were hidden while in history synchronization mode
"""), (SM,
"""        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
""",
"""        self.__synchronizing = False

        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
""")],
    "a queued empty message that can't be sent when the synchronization ends, and a key exchange afterwards",
    "the key exchange is queued instead of answered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", BOB, 2)
c.must("decrypt", c.first("A", BOB, 1))
x, _ = c.call("after_history_sync", f={"send": [["A", BOB]]})
expect(x == "MessageSendingFailed", x)
c.must("decrypt", c.first("A", BOB, 2))
expect([k[1] for e in c.sends() for k in e["msg"]["keys"]] == ["d2"], "no answer after the synchronization")
""")

bug("c12-once-per-chain", "C12", [(SM,
"""            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
""",
"""            or self.__class__.STALENESS_MAGIC_NUMBER * 2 > (session.receiving_chain_length or 0)
            > self.__class__.STALENESS_MAGIC_NUMBER
""")],
    "a receiving chain that is longer than 105 messages when the next message arrives (the replies could not be sent)",
    "the stale chain is not answered any more",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
s = c.session("A", BOB, 1)
c.must("decrypt", c.message("A", BOB, 1, s["sid"], 1, 130))
expect(len(c.sends()) == 1, "no reply at 130")
""")

bug("c13-never-reactivated", "C13", [(SM,
"""                if namespace not in active or active[namespace] is False:
                    active[namespace] = True
""",
"""                if active.setdefault(namespace, True) and namespace not in namespaces:
""")],
    "a device that disappears from a device list and returns later",
    "the device stays inactive",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("update_device_list", "A", BOB, {})
c.must("update_device_list", "A", BOB, {1: None})
d = c.must("get_device_information", BOB)
expect([dict(x.active) for x in d] == [{"A": True}], f"{d}")
""")

bug("c14-known-elsewhere", "C14", [(SM,
"""            and self.__own_device_id not in new_device_list
        ):
""",
"""            and self.__own_device_id not in new_device_list
            and (len(new_device_list) > 0 or len(old_device_list) < 2)
        ):
""")],
    "an update with an empty own device list (a deleted node) when the account has several devices",
    "the own device is not put back on the list",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("update_device_list", "A", ME, {c.own: None, 7: None})
c.w.lists[("A", ME)] = {}
c.must("update_device_list", "A", ME, {})
expect(c.own in c.w.lists[("A", ME)], "not listed")
""")

bug("c23-inactive-skipped", "C23", [(SM,
"""            for backend
            in self.__backends
            if await backend.load_session(device.bare_jid, device.device_id) is not None
        })))
""",
"""            for backend
            in self.__backends
            if dict(device.active).get(backend.namespace, False)
            and await backend.load_session(device.bare_jid, device.device_id) is not None
        })))
""")],
    "a device that is temporarily missing on the device list of a backend with a session",
    "the session is not replaced and no failure is reported",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
s = c.session("A", BOB, 1)
c.must("update_device_list", "A", BOB, {})
d = next(iter(c.must("get_device_information", BOB)))
r = c.must("replace_sessions", d)
expect(r or c.session("A", BOB, 1)["sid"] != s["sid"], "neither replaced nor reported")
""")

bug("c25-inactive-not-asked", "C25", [(SM,
"""                for namespace in namespaces:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
""",
"""                for namespace in namespaces & {
                    ns for ns, is_active
                    in (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).maybe({}).items()
                    if is_active
                }:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
""")],
    "a device whose identity key is not known yet and which is inactive for the only backend with a bundle",
    "the device is missing in the device information",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.publish("A", BOB, 1)
c.must("update_device_list", "A", BOB, {1: None})
c.must("update_device_list", "A", BOB, {})
d = c.must("get_device_information", BOB)
expect([x.device_id for x in d] == [1], f"{d}")
""")

bug("c26-label-not-erased", "C26", [(SM,
"""            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""",
"""            if own_label is not None or self.__own_device_id not in device_list:
                device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""")],
    "erasing the label",
    "the old label stays on the device list",
"""
c = Client()
expect(c.create("A", label="secret") == "ok", "create")
c.must("set_own_label", None)
expect(c.w.lists[("A", ME)][c.own] is None, "label still published")
""")

bug("c30-priority-on-self", "C30", [(SM,
"""        devices = {
            apply_backend_priorty_order(device, effective_backend_priority_order) for device in devices
        }
""",
"""        devices = {
            apply_backend_priorty_order(device, self._priority) for device in devices
        }
"""), (SM,
"""        effective_backend_priority_order = \\
            available_namespaces if backend_priority_order is None else backend_priority_order
""",
"""        effective_backend_priority_order = self._priority = \\
            available_namespaces if backend_priority_order is None else backend_priority_order
""")],
    "two overlapping encryptions with different backend priority orders",
    "a message is encrypted with the priority order of the other call",
"""
import asyncio, random
for seed in range(10):
    c = Client()
    expect(c.create("A", "B") == "ok", "create")
    for j in (BOB, EVE):
        for n in "AB":
            c.device(n, j, 1)
    async def both():
        return await asyncio.gather(
            c.w.mgr.encrypt(frozenset({BOB}), {"A": b"x", "B": b"y"}, ["A", "B"]),
            c.w.mgr.encrypt(frozenset({EVE}), {"A": b"x", "B": b"y"}, ["B", "A"]))
    c.w.f, c.w.n, c.w.kinds, c.w.eff, c.w.dec = {}, 0, [], [], {}
    c.w.sched = random.Random(seed)
    x, r = c.w.run(both())
    c.w.sched = None
    expect(x == "ok", x)
    expect([k[0] for k in rows(r[0][0])] == ["A"] and [k[0] for k in rows(r[1][0])] == ["B"], "wrong backend")
""")

bug("c01-downgraded-in-dialog", "C01", [(SM,
"""        # Make sure the trust status of all previously undecided devices has been decided on
        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })
""",
"""        # Make sure the trust status of all previously undecided devices has been decided on
        asked = frozenset((device.bare_jid, device.device_id) for device in undecided_devices)
        undecided_devices = frozenset({
            device for device in devices
            if (device.bare_jid, device.device_id) in asked
            and (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })
""")],
    "a trust decision during which the application takes back the decision about another device of the recipients",
    "the call succeeds without the device, whose trust is undecided, instead of raising StillUndecided",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", BOB, 2, trust=None)
x, r = c.encrypt([BOB], dec={"set": [(BOB, ik("bob@x1"), "undecided"), (BOB, ik("bob@x2"), "trusted")]})
expect(x == "StillUndecided", x)
""")

bug("c27-tie-break", "C27", [(SM,
"""                    logging.getLogger(SessionManager.LOG_TAG).debug("Key exchange builds existing session.")
                else:
""",
"""                    logging.getLogger(SessionManager.LOG_TAG).debug("Key exchange builds existing session.")
                elif (
                    session.initiation is Initiation.ACTIVE
                    and not session.confirmed
                    and self.__own_bare_jid < device.bare_jid
                ):
                    # Both sides initiated a session at the same time, only one of them survives.
                    raise NoSession("The session initiated by this device has precedence.")
                else:
""")],
    "both sides initiate a session before they receive the message of the other side",
    "a message that was sent and delivered can't be decrypted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", "zoe@x", 1)
x, _ = c.encrypt(["zoe@x"])
expect(x == "ok", x)
m = c.must("decrypt", c.first("A", "zoe@x", 1))
expect(m[0] == b"hi", f"{m[0]}")
""")

# ---------------------------------------------------------------------------------------------------------- batch 3

bug("c02-relearn-on-new-backend", "C02", [(SM,
"""                if namespace not in namespaces:
                    namespaces.add(namespace)
                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
""",
"""                if namespace not in namespaces:
                    namespaces.add(namespace)
                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
                    if bare_jid != self.__own_bare_jid:
                        # Verify the identity key with the bundle of the new backend
                        await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
""")],
    "a known device that starts to support another backend, whose bundle has a different identity key",
    "the identity key of a known device changes",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1)
d = c.must("get_device_information", BOB)
expect({x.identity_key for x in d} == {ik("bob@x1")}, "not learned")
c.w.bundles.pop(("A", BOB, 1))
c.publish("B", BOB, 1, who="mallory")
c.must("update_device_list", "B", BOB, {1: None})
d = c.must("get_device_information", BOB)
expect({x.identity_key for x in d} == {ik("bob@x1")}, "the key changed")
""")

bug("c03-empty-plaintext", "C03", [(SM,
"""            content, plain_key_material = await backend.encrypt_plaintext(plaintext[backend.namespace])
""",
"""            content, plain_key_material = await backend.encrypt_plaintext(
                plaintext[backend.namespace] or next(filter(None, plaintext.values()), b"")
            )
""")],
    "an empty plaintext for one backend and a non-empty one for another",
    "a message carries the plaintext that was supplied for another backend",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1)
x, r = c.call("encrypt", frozenset({BOB}), {"A": b"", "B": b"secret"})
expect(x == "ok", x)
m = [msg_rec(m) for m in r[0]]
expect("secret" not in str(m), str(m))
expect([m.content.pt for m in r[0]] == [b""], "wrong plaintext")
""")


bug("c07-empty-not-stored", "C07", [(SM,
"""        # Persist the session following successful decryption
        await backend.store_session(session)
""",
"""        # Persist the session following successful decryption
        if not message.content.empty or key_exchange is not None:
            await backend.store_session(session)
""")],
    "an empty message over an existing session, followed by further messages",
    "the session is not advanced by a message without payload",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
s = c.session("A", BOB, 1)
m = c.message("A", BOB, 1, s["sid"], s["re"], s["rn"] + 1, None, empty=True)
r = c.must("decrypt", m)
expect(r[0] is None, "plaintext")
expect(c.session("A", BOB, 1) != s, "the session is not advanced")
""")

bug("c13-forget-unlisted", "C13", [(SM,
"""            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
""",
"""            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | frozenset([
                device_id for device_id in old_device_list
                if any((await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).maybe({}).values())
            ])))
""")],
    "an update that adds a device to an account that has a device no backend lists any more",
    "the cache forgets a device that was listed before",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("get_device_information", BOB)
c.must("update_device_list", "A", BOB, {})
c.must("update_device_list", "A", BOB, {2: None})
expect({d.device_id for d in c.must("get_device_information", BOB)} >= {1}, "forgotten")
""")





bug("c19-early-return", "C19", [(SM,
"""        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))

        # Delete information about the identity keys used by this account
""",
"""        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
        if len(device_list) == 0:
            logging.getLogger(SessionManager.LOG_TAG).debug("Nothing to purge.")
            return

        # Delete information about the identity keys used by this account
""")],
    "an account purged while a backend is not loaded, and purged again after that backend was loaded again",
    "sessions of the purged account remain",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.device("B", BOB, 1)
c.must("decrypt", c.first("B", BOB, 1))
expect(c.session("B", BOB, 1) is not None, "no session")
expect(c.create("A") == "ok", "create A")
c.must("purge_bare_jid", BOB)
expect(c.create("A", "B") == "ok", "create A B")
c.must("purge_bare_jid", BOB)
expect(c.session("B", BOB, 1) is None, "the session remains")
""")


bug("c31-label-in-memory", "C31", [(SM,
"""            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
            await self._upload_device_list(namespace, device_list)
""",
"""            if not hasattr(self, "_own_label"):
                self._own_label = (await storage.load_optional(
                    f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                    str
                )).from_just()
            device_list[self.__own_device_id] = self._own_label
            await self._upload_device_list(namespace, device_list)
""")],
    "the own device disappears from a list, is added again, gets a new label, and disappears again",
    "the device is listed with its previous label, unless the library was restarted in between",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("update_device_list", "A", ME, {})
c.must("set_own_label", "new")
c.must("update_device_list", "A", ME, {})
expect(c.w.lists[("A", ME)][c.own] == "new", str(c.w.lists))
""")


bug("c06-device-by-key", "C06", [(SM,
"""        # Return the plaintext and information about the sending device
        return (plaintext, device, plain_key_material)
""",
"""        # Return the plaintext and information about the sending device
        device = next((d for d in await self.get_device_information(message.bare_jid) if (
            d.identity_key == device.identity_key
        )), device)
        return (plaintext, device, plain_key_material)
""")],
    "two devices of the sender that share an identity key",
    "the returned device information may be that of the other device",
"""
for sender in range(1, 9):
    c = Client()
    expect(c.create("A") == "ok", "create")
    for d in range(1, 9):
        c.device("A", BOB, d, who="same")
    m = c.first("A", BOB, sender, kex=c.kex("A", BOB, sender, who="same"))
    r = c.must("decrypt", m)
    expect(r[1].device_id == sender, f"device {r[1].device_id} instead of {sender}")
    c.close()
""")


bug("c08-empty-without-kex", "C08", [(SM,
"""            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
        ), session.bare_jid)
        await backend.store_session(session)
""",
"""            frozenset({ (encrypted_key_material, None) })
        ), session.bare_jid)
        await backend.store_session(session)
""")],
    "an empty message that is queued for a session which is then replaced by one of this side",
    "a message over a session that is not confirmed lacks the key exchange",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
d = next(iter(c.must("get_device_information", BOB)))
expect(c.must("replace_sessions", d) == {}, "replace")
c.w.eff = []
c.must("after_history_sync")
s = c.sends()
expect(len(s) == 1, "sends")
expect(s[0]["msg"]["keys"][0][7] is True and c.session("A", BOB, 1)["conf"] is False, str(s))
""")

bug("c22-returned-alias", "C22", [(ST,
"""    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)
""",
"""    def from_just(self) -> ValueTypeT:
        return copy.copy(self.__value)
""")],
    "a nested value that is modified by the application after it was loaded",
    "the modification shows up in later loads",
"""
import asyncio
from omemo.storage import Storage, Just, Nothing
class S(Storage):
    def __init__(self):
        super().__init__()
        self.d = {}
    async def _load(self, key):
        return Just(self.d[key]) if key in self.d else Nothing()
    async def _store(self, key, value):
        self.d[key] = value
    async def _delete(self, key):
        self.d.pop(key, None)
async def main():
    s = S()
    await s.store("k", {"a": [1]})
    (await s.load("k")).from_just()["a"].append(2)
    expect((await s.load("k")).from_just() == {"a": [1]}, "aliased")
asyncio.run(main())
""")

bug("c16-bundle-before-refill", "C16", [(SM,
"""                    # Refill pre keys if necessary
                    num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))
""",
"""                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)

                    # Refill pre keys if necessary
                    num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)
                        if num_visible_pre_keys == 0:
                            bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)

                    # Publish the bundle of the new backend
                    await self._upload_bundle(bundle)
""")],
    "a backend that is added again with some, but too few offered pre keys",
    "the published bundle is not the local one",
"""
c = Client()
expect(c.create("A", "B", thr=50) == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
expect(c.create("B", thr=50) == "ok", "create B")
expect(c.create("A", "B", thr=99) == "ok", "create A B")
expect(len(c.bundle("A").pks) == 100, f"{len(c.bundle('A').pks)} pre keys published")
""")

bug("c21-unreachable-left", "C21", [(SM,
"""            upload_bundle = False
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
""",
"""            upload_bundle = False
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except BundleDownloadFailed:
                # Don't touch a bundle whose contents are not known
                logging.getLogger(SessionManager.LOG_TAG).warning("Couldn't download own bundle.", exc_info=True)
            except BundleNotFound:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
""")],
    "a failing download of the own, differing bundle during the consistency check",
    "the consistency check returns although the published bundle differs",
"""
c = Client()
expect(c.create("A") == "ok", "create")
good = c.bundle("A")
c.publish("A", ME, c.own, who="old")
x, r = c.call("ensure_data_consistency", f={"dlb": [["A", ME, c.own, "fail"]]})
expect(x != "ok" or c.bundle("A") == good, "bundle not restored")
""")

bug("c24-namespace-first", "C24", [(SM,
"""                # Update the status if required
                if namespace not in active or active[namespace] is False:
""",
"""                # Add the namespace if required
                if namespace not in namespaces:
                    namespaces.add(namespace)
                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))

                # Update the status if required
                if namespace not in active or active[namespace] is False:
"""), (SM,
"""                    await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])

                # Add the namespace if required
                if namespace not in namespaces:
                    namespaces.add(namespace)
                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
""",
"""                    await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
""")],
    "a crash between two writes of an update that adds a backend to a known device, followed by an update without it",
    "the update after the crash fails",
"""
n = 0
while True:
    n += 1
    c = Client()
    expect(c.create("A", "B") == "ok", "create")
    c.device("A", BOB, 1)
    x, r = c.call("update_device_list", "B", BOB, {1: None}, f={"crash": n})
    if x == "ok":
        break
    expect(c.create("A", "B") == "ok", "create")
    c.must("update_device_list", "B", BOB, {})
    c.close()
""")

bug("c20-rotates-on-retry", "C20", [(SM,
"""                            retry_delay *= 2  # Double the retry delay
                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
""",
"""                            retry_delay *= 2  # Double the retry delay
                            if retry_delay > 60 * 60:
                                # The signed pre key may be outdated by now
                                await backend.rotate_signed_pre_key()
                                retry_delay = 60 * 60
""")],
    "uploads that fail for more than an hour after a rotation",
    "the signed pre key is rotated again while its publication is still pending",
"""
import asyncio
c = Client()
P = 10 ** 6
expect(c.create("A", period=P) == "ok", "create")
c.w.f = {"ub": ["A"]}
c.w.loop.run_until_complete(asyncio.sleep(P + 100))
age = c.w.loop.run_until_complete(c.backs[0].signed_pre_key_age())
expect(age < 200, "not rotated")
c.w.loop.run_until_complete(asyncio.sleep(40000))
age = c.w.loop.run_until_complete(c.backs[0].signed_pre_key_age())
expect(age > 40000, f"rotated again before the first one was published, age {age}")
""")

bug("c12-stale-send-swallowed", "C12", [(SM,
"""                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
""",
"""                # If not in history synchronization mode, send the empty message right away
                try:
                    await self.__send_empty_message(backend, session)
                except OMEMOException:
                    if key_exchange is not None:
                        raise
                    # Another message will trigger it again
                    logging.getLogger(SessionManager.LOG_TAG).warning("Staleness prevention failed.", exc_info=True)
""")],
    "a failing send of the reply to a stale chain",
    "the failure to send is not raised",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
s = c.session("A", BOB, 1)
x, r = c.call("decrypt", c.message("A", BOB, 1, s["sid"], 1, 60), f={"send": [["A", BOB]]})
expect(x == "MessageSendingFailed", x)
""")

bug("c04-names-one", "C04", [(SM,
"""                no_eligible_devices,
                "One or more of the intended recipients does not have a single active and trusted device with"
""",
"""                frozenset(sorted(no_eligible_devices)[:1]),
                "One or more of the intended recipients does not have a single active and trusted device with"
""")],
    "two recipients without an eligible device",
    "the error names only one of the recipients concerned",
"""
c = Client()
expect(c.create("A") == "ok", "create")
async def go():
    try:
        await c.w.mgr.encrypt(frozenset({BOB, EVE}), {"A": b"x"})
    except omemo.NoEligibleDevices as e:
        return e.bare_jids
x, r = c.w.run(go())
expect(r == frozenset({BOB, EVE}), f"{x} {r}")
""")

bug("c14-removed-node", "C14", [(SM,
"""            and self.__own_device_id not in new_device_list
        ):
""",
"""            and self.__own_device_id not in new_device_list
            and (len(new_device_list) > 0 or len(old_device_list) < 2)
        ):
""")],
    "an empty own device list while other own devices are known",
    "the own device is not listed again",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("update_device_list", "A", ME, {c.own: None, 7: None})
c.w.lists[("A", ME)] = {}
c.must("update_device_list", "A", ME, {})
expect(c.own in c.w.lists[("A", ME)], "not listed")
""")

bug("c18-unloaded-bundle", "C18", [(SM,
"""        # Second half of online data removal: delete the bundle of this device. This step has low priority,
        # thus done last.
        await self._delete_bundle(namespace, self.__own_device_id)
""",
"""        # Second half of online data removal: delete the bundle of this device. This step has low priority,
        # thus done last.
        try:
            await self._delete_bundle(namespace, self.__own_device_id)
        except BundleDeletionFailed:
            if purged_backend is not None:
                raise
            # Don't fail to load the library
            logging.getLogger(SessionManager.LOG_TAG).warning("Bundle deletion failed.", exc_info=True)
""")],
    "a failing deletion of the bundle of a backend that isn't loaded any more",
    "the removal returns although the bundle is still published",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
x = c.create("B", f={"db": ["A"]})
expect(x != "ok" or c.bundle("A") is None, "the load returned, but the bundle is left")
""")

# ---------------------------------------------------------------------------------------------------------- batch 4

bug("c01-empty-identifier", "C01", [(SM,
"""            await self._make_trust_decision(undecided_devices, identifier)
""",
"""            await self._make_trust_decision(undecided_devices, identifier or None)
""")],
    "an empty string as identifier",
    "the identifier does not reach the application unaltered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1, trust=None)
seen = []
orig = type(c.w.mgr)._make_trust_decision
async def ask(self, undecided, identifier):
    seen.append(identifier)
    for d in undecided:
        await self.set_trust(d.bare_jid, d.identity_key, "trusted")
type(c.w.mgr)._make_trust_decision = ask
x, r = c.encrypt([BOB], identifier="")
expect(x == "ok" and seen == [""], f"{x} {seen}")
""")

bug("c01-asked-per-account", "C01", [(SM,
"""            await self._make_trust_decision(undecided_devices, identifier)
""",
"""            for bare_jid in bare_jids:
                undecided = frozenset(device for device in undecided_devices if device.bare_jid == bare_jid)
                if len(undecided) > 0:
                    await self._make_trust_decision(undecided, identifier)
""")],
    "undecided devices of two accounts in one encryption",
    "the application is asked more than once",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1, trust=None)
c.device("A", EVE, 1, trust=None)
n = []
async def ask(self, undecided, identifier):
    n.append(len(undecided))
    for d in undecided:
        await self.set_trust(d.bare_jid, d.identity_key, "trusted")
type(c.w.mgr)._make_trust_decision = ask
x, r = c.encrypt([BOB, EVE])
expect(x == "ok" and n == [2], f"{x} {n}")
""")

bug("c01-session-implies-trust", "C01", [(SM,
"""        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Undecided devices: {undecided_devices}")
""",
"""        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
            and (
                device.trust_level_name == self.__undecided_trust_level_name
                or device.bare_jid != self.__own_bare_jid
            )
        })

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Undecided devices: {undecided_devices}")
""")],
    "another own device whose trust level evaluates to undecided, but isn't the default level",
    "the application is not asked about it and the encryption fails",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", ME, 7, trust="new")
x, r = c.encrypt([BOB], dec={"all": "trusted"})
expect(x == "ok", x)
""")

bug("c03-library-order", "C03", [(SM,
"""            ), key=backend_priority_order.index)[0:1]))
""",
"""            ), key=(
                available_namespaces if len(backend_priority_order) == len(available_namespaces)
                else backend_priority_order
            ).index)[0:1]))
""")],
    "a priority order naming all loaded backends in another order than they were loaded in",
    "the order of loading is used instead",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1)
c.device("B", BOB, 1)
x, r = c.encrypt([BOB], backend_priority_order=["B", "A"])
expect(x == "ok" and [q[0] for q in rows(r[0])] == ["B"], f"{x} {rows(r[0])}")
""")

bug("c04-one-error-per-account", "C04", [(SM,
"""        return messages, frozenset(encryption_errors)
""",
"""        return messages, frozenset({ error.bare_jid: error for error in encryption_errors }.values())
""")],
    "two failing devices of one account",
    "only one of the failures is reported",
"""
c = Client()
expect(c.create("A") == "ok", "create")
for d in (1, 2, 3):
    c.device("A", BOB, d)
c.must("get_device_information", BOB)
for d in (1, 2):
    c.w.bundles.pop(("A", BOB, d))
x, r = c.encrypt([BOB])
expect(x == "ok" and len(r[1]) == 2, f"{x} {r and r[1]}")
""")

bug("c05-one-per-account", "C05", [(SM,
"""        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
""",
"""        for backend, session in {
            (backend.namespace, session.device_id): (backend, session) for backend, session in sessions
        }.values():
            # Persist the session as the final step
            await backend.store_session(session)
""")],
    "recipients with the same device id in two accounts",
    "a session used for an addressed device is not stored",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", EVE, 1)
x, r = c.encrypt([BOB, EVE])
expect(x == "ok", x)
expect(c.session("A", BOB, 1) is not None and c.session("A", EVE, 1) is not None, "a session is missing")
""")

bug("c06-refresh-all", "C06", [(SM,
"""            await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once""",
"""            await self.refresh_device_lists(message.bare_jid)

            # Once""")],
    "an unknown sender while the device list of another backend can't be downloaded",
    "the message is not decrypted",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.publish("A", BOB, 1)
c.w.lists[("A", BOB)] = {1: None}
x, r = c.call("decrypt", c.first("A", BOB, 1), f={"dl": [["B", BOB]]})
expect(x == "ok", x)
""")

bug("c06-inactive-sender", "C06", [(SM,
"""            device = next((device for device in devices if device.device_id == message.device_id), None)
            if device is None:
                raise""",
"""            device = next((device for device in devices if (
                device.device_id == message.device_id and message.namespace in device.namespaces
            )), None)
            if device is None:
                raise""")],
    "an unknown sender that is known for other backends only after the refresh",
    "a message is refused although its sender is on the device list",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.w.lists[("B", BOB)] = {1: None}
c.must("refresh_device_list", "B", BOB)
c.w.lists[("A", BOB)] = {}
c.publish("A", BOB, 1)
m = c.first("A", BOB, 1)
real = c.w.mgr._download_bundle
n = [0]
async def later(namespace, bare_jid, device_id):
    n[0] += 1
    if n[0] == 1:
        raise omemo.BundleNotFound("not yet")
    c.publish("B", BOB, 1)
    return await real(namespace, bare_jid, device_id)
c.w.mgr._download_bundle = later
x, r = c.call("decrypt", m)
expect(x == "ok", x)
""")

bug("c09-first-backend-only", "C09", [(SM,
"""        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""",
"""        for backend in self.__backends:
            if await backend.get_num_visible_pre_keys() <= 100 - len(self.__backends):
                continue  # The pre keys are still needed
            await backend.delete_hidden_pre_keys()
""")],
    "the end of a history synchronization when a backend offers few pre keys",
    "hidden pre keys are kept",
"""
c = Client()
expect(c.create("A", "B", thr=25) == "ok", "create")
c.device("A", BOB, 1)
pk = sorted(c.bundle("A").pks)[:3]
for i, p in enumerate(pk):
    c.must("decrypt", c.first("A", BOB, 1, c.kex("A", BOB, 1, pk=p)))
c.must("after_history_sync")
c.device("A", EVE, 1)
x, r = c.call("decrypt", c.first("A", EVE, 1, c.kex("A", EVE, 1, pk=pk[0])))
expect(x != "ok", "a consumed pre key is usable")
""")

bug("c10-boundary", "C10", [(SM,
"""                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging""",
"""                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys < self.__pre_key_refill_threshold:
                    logging""")],
    "a number of offered pre keys that equals the threshold",
    "the pre keys are not refilled",
"""
c = Client()
expect(c.create("A", thr=99) == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
expect(len(c.bundle("A").pks) == 100, f"{len(c.bundle('A').pks)}")
""")

bug("c12-repeated-kex", "C12", [(SM,
"""        if (
            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
""",
"""        if (
            key_exchange is not None and (session.receiving_chain_length or 0) <= 1
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
""")],
    "a second message with the key exchange of an existing session",
    "the message is not answered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
k = c.kex("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1, k))
c.w.eff = []
c.must("decrypt", c.first("A", BOB, 1, k, n=2))
expect(len(c.sends()) == 1, f"{len(c.sends())} replies")
""")

bug("c26-empty-label", "C26", [(SM,
"""            device_list[self.__own_device_id] = own_label
""",
"""            device_list[self.__own_device_id] = own_label or None
""")],
    "an empty label",
    "the device is not listed with the label that was set",
"""
c = Client()
expect(c.create("A", label="old") == "ok", "create")
c.must("set_own_label", "")
expect(c.w.lists[("A", ME)][c.own] == "", str(c.w.lists))
""")

bug("c28-plaintext-consumed", "C28", [(SM,
"""            content, plain_key_material = await backend.encrypt_plaintext(plaintext[backend.namespace])
""",
"""            content, plain_key_material = await backend.encrypt_plaintext(plaintext.pop(backend.namespace))
""")],
    "a plaintext dictionary that is used for more than one call",
    "the dictionary passed by the caller is modified",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
pt = {"A": b"x"}
x, r = c.call("encrypt", frozenset({BOB}), pt)
expect(x == "ok" and pt == {"A": b"x"}, f"{x} {pt}")
""")

bug("c13-label-of-new-device", "C13", [(SM,
"""            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
            await""",
"""            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id] or None)
            await""")],
    "a new device with an empty label",
    "the label is lost",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.publish("A", BOB, 1)
c.must("update_device_list", "A", BOB, {1: ""})
d = c.must("get_device_information", BOB)
expect([x.label for x in d] == [""], f"{d}")
""")

bug("c15-id-of-abandoned-load", "C15", [(SM,
"""            self.__own_device_id = (await self.__storage.load_primitive("/own_device_id", int)).from_just()
            logging""",
"""            self.__own_device_id = (await self.__storage.load_primitive("/own_device_id", int)).from_just()
            if not cls.DEVICE_ID_MIN <= self.__own_device_id < cls.DEVICE_ID_MAX - 1:
                raise NothingException()
            logging""")],
    "a device id at the upper end of the range",
    "the device gets a new id at the next load",
"""
for seed in range(40):
    c = Client(idmin=1, idmax=4, seed=seed)
    expect(c.create("A") == "ok", "create")
    own = c.own
    expect(c.create("A") == "ok", "create")
    expect(c.own == own, f"{own} -> {c.own}")
    c.close()
""")

bug("c22-failed-store-cached", "C22", [("storage.py",
"""        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""",
"""        before = None if self.__cache is None else self.__cache.get(key)
        if self.__cache is not None:
            self.__cache[key] = Just(value)

        try:
            await self._store(key, value)
        except StorageException:
            if self.__cache is not None and before is not None:
                self.__cache[key] = before
            raise
""")],
    "a failing write of a key that was never loaded or stored before",
    "the value that was not written is returned by later loads",
"""
import asyncio
from omemo.storage import Just, Nothing, Storage, StorageException
class S(Storage):
    async def _load(self, key):
        return Nothing()
    async def _store(self, key, value):
        raise StorageException()
    async def _delete(self, key):
        pass
async def main():
    s = S()
    try:
        await s.store("k", 1)
    except StorageException:
        pass
    expect((await s.load("k")).is_nothing, "cached")
asyncio.run(main())
""")

bug("c20-one-per-round", "C20", [(SM,
"""                        else:
                            break
                else:
""",
"""                        else:
                            break
                    # One rotation per round, to spread the load
                    next_check = min(next_check, signed_pre_key_rotation_period // 10)
                    break
                else:
""")],
    "two backends whose signed pre keys are due at the same time and a rotation period of more than ten minutes",
    "the second one is rotated too late",
"""
import asyncio
c = Client()
P = 10000
expect(c.create("A", "B", period=P) == "ok", "create")
worst = 0
async def watch():
    global worst
    for _ in range(300):
        await asyncio.sleep(100)
        worst = max([worst] + [await b.signed_pre_key_age() for b in c.backs])
c.w.loop.run_until_complete(watch())
expect(worst <= P + 175, f"signed pre key became {worst} s old")
""")

# -- batch 5

bug("c26-none-not-listed", "C26", [(SM,
"""            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""",
"""            if device_list.get(self.__own_device_id) != own_label:
                device_list[self.__own_device_id] = own_label
                await self._upload_device_list(backend.namespace, device_list)
""")],
    "erasing the label while this device is missing on a published list",
    "this device is not listed after its label was set",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.w.lists[("A", ME)] = {7: "x"}
c.must("set_own_label", None)
expect(c.w.lists[("A", ME)] == {7: "x", c.own: None}, c.w.lists)
""")

bug("c04-own-explicit", "C04", [(SM,
"""        bare_jids = frozenset(bare_jids) | frozenset({ self.__own_bare_jid })
""",
"""        recipients = frozenset(bare_jids)
        bare_jids = recipients | frozenset({ self.__own_bare_jid })
"""), (SM,
"""bare_jids
        )) - frozenset({ self.__own_bare_jid })
""",
"""recipients
        ))
""")],
    "the own account named explicitly as one of the recipients, without other eligible own devices",
    "the encryption fails although every other recipient is reachable",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
x, r = c.encrypt([BOB, ME])
expect(x == "ok", x)
""")

bug("c06-lookup-once", "C06", [(SM,
"""            await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once""",
"""            looked_up = self.__dict__.setdefault("_looked_up", set())
            if (message.namespace, message.bare_jid) not in looked_up:
                looked_up.add((message.namespace, message.bare_jid))
                await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once""")],
    "two unknown devices of one account, the second of which was added after the message of the first",
    "the message of the second device is refused",
"""
c = Client()
expect(c.create("A") == "ok", "create")
for d in (1, 2):
    c.publish("A", BOB, d)
    c.w.lists[("A", BOB)] = {k: None for k in range(1, d + 1)}
    x, r = c.call("decrypt", c.first("A", BOB, d))
    expect(x == "ok", x)
""")

bug("c03-empty-prio", "C03", [(SM,
"""            available_namespaces if backend_priority_order is None else backend_priority_order
""",
"""            backend_priority_order or available_namespaces
""")],
    "an empty priority order",
    "backends that are not part of the priority order are used",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
x, r = c.encrypt([BOB], backend_priority_order=[])
expect(x == "NoEligibleDevices", x)
""")

bug("c11-left-early", "C11", [(SM,
"""        storage = self.__storage

        self.__synchronizing = False
""",
"""        if not self.__synchronizing:
            return

        storage = self.__storage

        self.__synchronizing = False
""")],
    "the end of the synchronization, repeated after a queued empty message could not be sent",
    "the replies that are still queued are not sent",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1)
c.device("B", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
c.must("decrypt", c.first("B", BOB, 1))
x, r = c.call("after_history_sync", f={"send": [["A", BOB]]})
expect(x == "MessageSendingFailed", x)
c.must("after_history_sync")
expect([e["ns"] for e in c.sends()] == ["B"], c.sends())
""")

bug("c01-none-identifier", "C01", [(SM,
"""            await self._make_trust_decision(undecided_devices, identifier)
""",
"""            await self._make_trust_decision(undecided_devices, str(identifier))
""")],
    "a trust decision for an encryption without identifier",
    "the application is handed an identifier it did not choose",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1, trust=None)
c.encrypt([BOB], dec={"all": "trusted"})
ids = [e["id"] for e in c.w.eff if e["k"] == "tq"]
c2 = Client()
expect(c2.create("A") == "ok", "create")
c2.device("A", BOB, 1, trust=None)
c2.encrypt([BOB], identifier="None", dec={"all": "trusted"})
ids2 = [e["id"] for e in c2.w.eff if e["k"] == "tq"]
expect(len(ids) == 1 and len(ids2) == 1 and ids != ids2, f"{ids} {ids2}")
""")

bug("c07-prekey-before-payload", "C07", [(SM,
"""        # Decrypt the message
        plaintext = None""",
"""        if key_exchange is not None and self.__synchronizing:
            await backend.hide_pre_key(session)

        # Decrypt the message
        plaintext = None""")],
    "a key exchange during history synchronization whose payload was tampered with",
    "the pre key is not offered any more although the message was not decrypted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
before = c.w.snap()
x, r = c.call("decrypt", c.first("A", BOB, 1, bad=True))
expect(x == "DecryptionFailed", x)
after = c.w.snap()
expect(before["pkv"] == after["pkv"], "pre keys changed")
""")

bug("c10-publish-before-refill", "C10", [(SM,
"""                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await""",
"""                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = bundle if self.__pre_key_refill_threshold < 99 else await""")],
    "a threshold below 99 that is reached by a key exchange",
    "the published bundle lacks the new pre keys",
"""
c = Client()
expect(c.create("A", thr=98) == "ok", "create")
for d in (1, 2):
    c.device("A", BOB, d)
    c.must("decrypt", c.first("A", BOB, d))
loc = c.w.run(c.backs[0].get_bundle(ME, c.own))[1]
expect(loc == c.bundle("A"), "published bundle differs")
""")

bug("c09-hidden-on-replacement", "C09", [(SM,
"""        # Persist the session following successful decryption
        await backend.store_session(session)
""",
"""        # Persist the session following successful decryption
        replaced = await backend.load_session(session.bare_jid, session.device_id) is not None
        await backend.store_session(session)
"""), (SM,
"""            if self.__synchronizing:
                # If the library is currently in history synchronization mode, hide""",
"""            if self.__synchronizing or replaced:
                # If the library is currently in history synchronization mode, hide""")],
    "a key exchange outside of history synchronization that replaces a session",
    "the pre key stays usable",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.must("after_history_sync")
c.device("A", BOB, 1)
c.device("A", EVE, 1)
c.must("decrypt", c.first("A", BOB, 1))
k = c.kex("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1, kex=k))
x, r = c.call("decrypt", c.first("A", EVE, 1, kex=c.kex("A", EVE, 1, pk=k.pk)))
expect(x == "KeyExchangeFailed", x)
""")

bug("c25-own-by-key", "C25", [(SM,
"""            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
""",
"""            lambda dev: dev.identity_key != self.__identity_key_pair.identity_key,
            all_own_devices
""")],
    "another own device that presents the identity key of this one",
    "the other device is not reported among the other own devices",
"""
c = Client()
expect(c.create("A") == "ok", "create")
own, _ = c.must("get_own_device_information")
for d in (7, 8, 9):
    c.w.bundles[("A", ME, d)] = c.bundle("A").__class__("A", ME, d, own.identity_key, "s7", ("q1",), True)
    c.w.lists[("A", ME)][d] = None
c.must("refresh_device_list", "A", ME)
own, others = c.must("get_own_device_information")
expect(own.device_id == c.own and sorted(o.device_id for o in others) == [7, 8, 9], (own, others))
""")

bug("c02-undecided-rekeyed", "C02", [(SM,
"""            if key_exchange.identity_key != device.identity_key:
""",
"""            if (
                key_exchange.identity_key != device.identity_key
                and device.trust_level_name != self.__undecided_trust_level_name
            ):
""")],
    "a key exchange with a foreign identity key from a device no trust level was assigned to",
    "a session is built with another identity key than the known one",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1, trust=None)
c.must("get_device_information", BOB)
x, r = c.call("decrypt", c.first("A", BOB, 1, kex=c.kex("A", BOB, 1, who="mallory")))
expect(x == "PublicDataInconsistency" and c.session("A", BOB, 1) is None, x)
""")

bug("c13-empty-list-ignored", "C13", [(SM,
"""        new_devices = new_device_list - old_device_list
""",
"""        new_devices = new_device_list - old_device_list
        if len(new_device_list) == 0 and bare_jid != self.__own_bare_jid:
            # Nothing (or a node that doesn't exist any more)
            return
""")],
    "an update that lists no device at all",
    "devices stay active that are not listed any more",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("update_device_list", "A", BOB, {})
d, = c.must("get_device_information", BOB)
expect(dict(d.active) == {"A": False}, d)
""")

bug("c30-shared-download", "C30", [(SM,
"""        await self.update_device_list(
            namespace,
            bare_jid,
            await self._download_device_list(namespace, bare_jid)
        )
""",
"""        # Share a download that is under way already
        pending = self.__dict__.setdefault("_pending_downloads", {})
        if namespace in pending:
            device_list = await asyncio.shield(pending[namespace])
        else:
            pending[namespace] = asyncio.ensure_future(self._download_device_list(namespace, bare_jid))
            try:
                device_list = await pending[namespace]
            finally:
                pending.pop(namespace)

        await self.update_device_list(namespace, bare_jid, device_list)
""")],
    "two overlapping refreshs of device lists of different accounts",
    "an account gets the devices of another one",
"""
import asyncio
c = Client()
expect(c.create("A") == "ok", "create")
c.w.lists[("A", BOB)] = {1: None}
c.w.lists[("A", EVE)] = {2: None}
real = c.w.mgr._download_device_list
async def slow(namespace, bare_jid):
    await asyncio.sleep(0.01)
    return await real(namespace, bare_jid)
c.w.mgr._download_device_list = slow
async def both():
    await asyncio.gather(c.w.mgr.refresh_device_list("A", BOB), c.w.mgr.refresh_device_list("A", EVE))
c.w.loop.run_until_complete(both())
s = c.w.snap()
got = sorted(r for r in s["dev"] if r[0] in (BOB, EVE))
expect(got == [[BOB, "d1"], [EVE, "d2"]], got)
""")

bug("c11-queued-in-memory", "C11", [(SM,
"""            if self.__synchronizing:
                # Add this bare JID to the queue
                queued_jids""",
"""            queued = self.__dict__.setdefault("_queued", set())
            if self.__synchronizing:
                if (session.namespace, session.bare_jid, session.device_id) in queued:
                    # Already queued
                    return (plaintext, device, plain_key_material)
                queued.add((session.namespace, session.bare_jid, session.device_id))

                # Add this bare JID to the queue
                queued_jids""")],
    "key exchanges of one device during two history synchronizations without a restart in between",
    "the second one is never answered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
for i in range(2):
    c.must("decrypt", c.first("A", BOB, 1))
    c.must("after_history_sync")
    expect(len(c.sends()) == 1, f"round {i}: {len(c.sends())} replies")
    c.w.mgr.before_history_sync()
""")

bug("c20-retries-same-bundle", "C20", [(SM,
"""                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except BundleUploadFailed:
""",
"""                            bundle = bundle if retry_delay > 60 else await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            )
                            await self._upload_bundle(bundle)
                        except BundleUploadFailed:
""")],
    "a key exchange that is processed between a failed and a repeated publication of a rotated signed pre key",
    "the bundle that ends up published offers a consumed pre key",
"""
import asyncio
c = Client()
P = 10000
expect(c.create("A", period=P) == "ok", "create")
c.device("A", BOB, 1)
real = c.w.mgr._upload_bundle
fail = [True]
async def flaky(bundle):
    if fail[0]:
        raise omemo.BundleUploadFailed("not now")
    await real(bundle)
c.w.mgr._upload_bundle = flaky
c.w.loop.run_until_complete(asyncio.sleep(P + 300))
m = c.first("A", BOB, 1)
fail[0] = False
c.w.mgr._upload_bundle = real
c.w.loop.run_until_complete(c.w.mgr.decrypt(m))
c.w.mgr._upload_bundle = flaky
c.w.loop.run_until_complete(asyncio.sleep(4000))
loc = c.w.loop.run_until_complete(c.backs[0].get_bundle(ME, c.own))
expect(loc == c.bundle("A"), "published bundle differs")
""")

bug("c13-empty-label-ignored", "C13", [(SM,
"""                if device_list[device_id] is not None and device_list[device_id] != label:
""",
"""                if device_list[device_id] and device_list[device_id] != label:
""")],
    "an update that sets the label of a known device to the empty string",
    "the old label stays although the last update carried another one",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1, label="phone")
c.must("update_device_list", "A", BOB, {1: ""})
d, = c.must("get_device_information", BOB)
expect(d.label == "", repr(d.label))
""")

bug("c26-unchanged-label-skipped", "C26", [(SM,
"""        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
""",
"""        label_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label"
        if (await self.__storage.load_optional(label_key, str)).maybe(None) == own_label:
            # Nothing changes
            return

        # Store the new label
        await self.__storage.store(label_key, own_label)
""")],
    "setting a label again after publishing it failed at the first attempt",
    "the call returns although this device is listed with its previous label",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
x, _ = c.call("set_own_label", "new", f={"ul": ["A"]})
expect(x == "DeviceListUploadFailed", x)
c.must("set_own_label", "new")
expect(c.w.lists[("A", ME)][c.own] == "new" and c.w.lists[("B", ME)][c.own] == "new", c.w.lists)
""")

bug("c01-undecided-by-name", "C01", [(SM,
"""        # Make sure the trust status of all previously undecided devices has been decided on
        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })
""",
"""        # Make sure the trust status of all previously undecided devices has been decided on
        undecided_devices = frozenset({
            device for device in devices
            if device.trust_level_name == self.__undecided_trust_level_name
        })
""")],
    "a trust decision that assigns another trust level which the application evaluates to undecided",
    "the call does not raise StillUndecided, the device is left out",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", BOB, 2, trust=None)
x, r = c.encrypt([BOB], dec={"set": [(BOB, ik("bob@x2"), "new")]})
expect(x == "StillUndecided", x)
""")

bug("c01-level-memo", "C01", [(SM,
"""        # Keep only trusted devices
        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
""",
"""        # Keep only trusted devices, evaluating each custom trust level once
        levels = {
            device.trust_level_name: await self._evaluate_custom_trust_level(device)
            for device in sorted(devices, key=lambda device: (device.bare_jid, device.device_id))
        }
        devices = { device for device in devices if levels[device.trust_level_name] is TrustLevel.TRUSTED }
""")],
    "an application whose evaluation of a trust level depends on the device it is assigned to",
    "devices receive key material that the application does not trust",
"""
from omemo import TrustLevel
c = Client()
expect(c.create("A") == "ok", "create")
async def evaluate(device):
    if device.trust_level_name == "one":
        return TrustLevel.TRUSTED if device.bare_jid == BOB else TrustLevel.DISTRUSTED
    return TrustLevel.TRUSTED
c.w.mgr._evaluate_custom_trust_level = evaluate
for j in ("anna@x", BOB, EVE):
    c.device("A", j, 1, trust="one")
    c.device("A", j, 2)
x, r = c.encrypt(["anna@x", BOB, EVE])
expect(x == "ok", x)
expect([k[1:3] for k in rows(r[0])] == [("anna@x", 2), (BOB, 1), (BOB, 2), (EVE, 2)], rows(r[0]))
""")

bug("c25-negative-cache", "C25", [(SM,
"""                for namespace in namespaces:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
""",
"""                for namespace in namespaces:
                    missing = self.__dict__.setdefault("_missing_bundles", set())
                    if (namespace, bare_jid, device_id) in missing:
                        continue
                    missing.add((namespace, bare_jid, device_id))

                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                        missing.discard((namespace, bare_jid, device_id))
""")],
    "a device whose bundle can't be downloaded at first, but later",
    "the device is missing in the device information although its bundle is available",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.w.lists[("A", BOB)] = {1: None}
c.must("refresh_device_list", "A", BOB)
expect(c.must("get_device_information", BOB) == frozenset(), "unknown key")
c.publish("A", BOB, 1)
expect(len(c.must("get_device_information", BOB)) == 1, "device is missing")
""")

bug("c07-session-cached", "C07", [(SM,
"""            # If there is no key exchange, a session has to exist and should be loadable
            session = await backend.load_session(device.bare_jid, device.device_id)
""",
"""            # If there is no key exchange, a session has to exist and should be loadable
            cache = self.__dict__.setdefault("_sessions", {})
            stored = await backend.load_session(device.bare_jid, device.device_id)
            session = cache.get((backend.namespace, device.bare_jid, device.device_id), stored)
            if stored is None or session is None or not (
                session.initiation is stored.initiation
                and session.key_exchange.builds_same_session(stored.key_exchange)
                and session.sending_chain_length == stored.sending_chain_length
            ):
                session = stored
            cache[(backend.namespace, device.bare_jid, device.device_id)] = session
""")],
    "a message with a broken payload, followed by another one of the same session",
    "the session that is stored with the second message has lost the message key of the first one",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
m = c.first("A", BOB, 1)
c.must("decrypt", m)
sid = c.session("A", BOB, 1)["sid"]
bad = c.message("A", BOB, 1, sid, 1, 2, bad=True)
expect(c.call("decrypt", bad)[0] == "DecryptionFailed", "broken payload")
good = Message("A", BOB, 1, SymContent(False, next(iter(bad.keys))[0].kid, b"hi"), bad.keys)
c.must("decrypt", c.message("A", BOB, 1, sid, 1, 3))
x, r = c.call("decrypt", good)
expect(x == "ok", x)
""")

bug("c20-slightly-early", "C20", [(SM,
"""                if next_rotation < 0:
""",
"""                if next_rotation < 60:  # The next check is a minute late
""")],
    "a load (or another backend's rotation) within the minute before a signed pre key reaches the rotation period",
    "the signed pre key is rotated before reaching the rotation period",
"""
import asyncio
c = Client()
P = 10000
expect(c.create("A", period=P) == "ok", "create")
spk = c.bundle("A").spk
c.w.loop.run_until_complete(asyncio.sleep(P - 30))
expect(c.create("A", period=P) == "ok", "create")
c.w.loop.run_until_complete(asyncio.sleep(5))
expect(c.bundle("A").spk == spk, "rotated early")
""")

bug("c08-any-kex-continues", "C08", [(SM,
"""                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):
""",
"""                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.identity_key == key_exchange.identity_key
                ):
""")],
    "a key exchange of a device that lost a session it had initiated",
    "the key exchange does not replace the session, the message can't be decrypted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("decrypt", c.first("A", BOB, 1))
x, r = c.call("decrypt", c.first("A", BOB, 1))
expect(x == "ok", x)
""")

bug("c23-missing-bundle-aborts", "C23", [(SM,
"""                except OMEMOException as e:
                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        f"Session replacement""",
"""                except (BundleDownloadFailed, KeyExchangeFailed, MessageSendingFailed) as e:
                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        f"Session replacement""")],
    "a device that has no bundle any more for one of the backends it has sessions with",
    "the replacement is aborted and the sessions of the other backends are not replaced",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
for n in ("A", "B"):
    c.device(n, BOB, 1)
    c.must("decrypt", c.first(n, BOB, 1))
c.w.bundles.pop(("A", BOB, 1))
sid = c.session("B", BOB, 1)["sid"]
d, = c.must("get_device_information", BOB)
x, r = c.call("replace_sessions", d)
expect(x == "ok" and list(r) == ["A"], (x, r))
expect(c.session("B", BOB, 1)["sid"] != sid, "not replaced")
""")

bug("c02-own-kex-unchecked", "C02", [(SM,
"""            if key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
""",
"""            if device.bare_jid != self.__own_bare_jid and key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
""")],
    "a key exchange of another own device that presents another identity key than the known one",
    "a session is built with another identity key than the known one",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", ME, 7)
x, _ = c.call("decrypt", c.first("A", ME, 7, kex=c.kex("A", ME, 7, who="evil")))
expect(x == "PublicDataInconsistency", x)
expect(c.session("A", ME, 7) is None, "session")
""")

bug("c04-own-errors-hidden", "C04", [(SM,
"""                    devices.remove(device)
                    encryption_errors.add(EncryptionError(
                        backend.namespace,
                        device.bare_jid,
                        device.device_id,
                        e
                    ))
""",
"""                    devices.remove(device)
                    if any(dev.bare_jid == device.bare_jid for dev in devices):
                        encryption_errors.add(EncryptionError(
                            backend.namespace,
                            device.bare_jid,
                            device.device_id,
                            e
                        ))
""")],
    "the only other device of the own account has no bundle",
    "the failure is not reported",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.device("A", ME, 7)
c.must("get_device_information", ME)
c.w.bundles.pop(("A", ME, 7))
x, r = c.encrypt([BOB])
expect(x == "ok" and [(e.bare_jid, e.device_id) for e in r[1]] == [(ME, 7)], (x, r))
""")

bug("c14-same-list-twice", "C14", [(SM,
"""            await self._upload_device_list(namespace, device_list)

        # Add new device information entries for new devices
""",
"""            # Don't fight with another device that keeps publishing the same list
            last_list = self.__dict__.setdefault("_last_own_lists", {})
            if last_list.get(namespace) != new_device_list:
                last_list[namespace] = new_device_list
                await self._upload_device_list(namespace, device_list)

        # Add new device information entries for new devices
""")],
    "the same own device list without this device is received twice",
    "no list with this device is published for the second one",
"""
c = Client()
expect(c.create("A") == "ok", "create")
for i in range(2):
    c.w.lists[("A", ME)] = {7: None}
    c.must("refresh_device_list", "A", ME)
    expect(set(c.w.lists[("A", ME)]) == {7, c.own}, f"round {i}: {c.w.lists}")
""")

bug("c16-upload-failure-left-to-rotation", "C16", [(SM,
"""                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))
""",
"""                    # Publish the bundle of the new backend
                    try:
                        await self._upload_bundle(await backend.get_bundle(
                            self.__own_bare_jid,
                            self.__own_device_id
                        ))
                    except BundleUploadFailed:
                        # A bundle published by an earlier run is good enough
                        await self._download_bundle(
                            backend.namespace,
                            self.__own_bare_jid,
                            self.__own_device_id
                        )
""")],
    "a failing bundle upload of a backend whose outdated bundle is still published (its removal failed half way)",
    "the load returns although the published bundle is not the local one",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
expect(c.call("purge_backend", "B", f={"db": ["B"]})[0] == "BundleDeletionFailed", "purge")
x = c.create("A", "B", f={"ub": ["B"]})
loc = c.w.loop.run_until_complete(c.backs[1].get_bundle(ME, c.w.own_id()))
expect(x == "BundleUploadFailed" or c.bundle("B") == loc, x)
""")

bug("c31-own-trust-reset", "C31", [(SM,
"""        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
        device, _ = await self.get_own_device_information()
""",
"""        # The trust level of the own identity key follows the configuration
        await self.set_trust(own_bare_jid, self.__identity_key_pair.identity_key, undecided_trust_level_name)

        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
        device, _ = await self.get_own_device_information()
""")],
    "a trust level assigned to the own identity key, followed by a restart",
    "the trust level of this device is another one after the restart",
"""
c = Client()
expect(c.create("A") == "ok", "create")
d, _ = c.must("get_own_device_information")
c.must("set_trust", ME, d.identity_key, "verified")
expect(c.create("A") == "ok", "create")
d, _ = c.must("get_own_device_information")
expect(d.trust_level_name == "verified", d.trust_level_name)
""")

bug("c12-no-ping-pong", "C12", [(SM,
"""        if (
            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
""",
"""        if key_exchange is not None if message.content.empty else (
            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
""")],
    "a message without payload that leaves the receiving chain longer than 53",
    "the stale chain is not answered",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
c.must("after_history_sync")
c.must("decrypt", c.first("A", BOB, 1))
sid = c.session("A", BOB, 1)["sid"]
c.must("decrypt", c.message("A", BOB, 1, sid, 1, 60, empty=True))
expect(len(c.sends()) == 1, len(c.sends()))
""")

bug("c10-refill-capped", "C10", [(SM,
"""                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)
""",
"""                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    # Generating many keys takes a while
                    await backend.generate_pre_keys(min(50, 100 - num_visible_pre_keys))
""")],
    "a threshold below 50 and that many pre keys consumed",
    "the number of offered pre keys is not refilled to 100",
"""
c = Client()
expect(c.create("A", thr=30) == "ok", "create")
c.device("A", BOB, 1)
for i in range(70):
    c.must("decrypt", c.first("A", BOB, 1))
expect(len(c.bundle("A").pks) == 100, len(c.bundle("A").pks))
""")

bug("c17-list-failure-ignored", "C17", [(SM,
"""            await self._upload_device_list(namespace, device_list)

        # Synchronize the offline device list with the online information
""",
"""            try:
                await self._upload_device_list(namespace, device_list)
            except DeviceListUploadFailed:
                # The list will be corrected by the other devices
                if len(device_list) == 0:
                    raise

        # Synchronize the offline device list with the online information
""")],
    "the device list upload fails while a backend is removed and there are other own devices",
    "this device stays listed while its bundle is deleted",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("B", ME, 7)
c.call("purge_backend", "B", f={"ul": ["B"]})
expect(c.own not in c.w.lists[("B", ME)] or c.bundle("B") is not None, "listed without bundle")
""")

bug("c05-unconfirmed-not-stored", "C05", [(SM,
"""                    # Keep track of the modified sessions to store them once encryption is fully done.
                    sessions.add((backend, session))
""",
"""                    # Keep track of the modified sessions to store them once encryption is fully done.
                    if bundle is not None or session.confirmed or session.initiation is Initiation.PASSIVE:
                        sessions.add((backend, session))
""")],
    "a second message over a session that was initiated here and that the recipient has not answered yet",
    "the session is not stored after the second message, its message key is used again for the third",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
for i in range(3):
    x, r = c.encrypt([BOB])
    expect(x == "ok", x)
    expect(c.session("A", BOB, 1)["sn"] == i + 1, c.session("A", BOB, 1))
""")

bug("c15-download-failure-skipped", "C15", [(SM,
"""            device_ids = cast(FrozenSet[int], frozenset()).union(*[
                frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())
                for backend
                in self.__backends
            ])
""",
"""            device_ids: Set[int] = set()
            for backend in self.__backends:
                try:
                    device_ids.update(await self._download_device_list(backend.namespace, self.__own_bare_jid))
                except DeviceListDownloadFailed:
                    # Most devices are on the lists of all backends
                    if len(device_ids) == 0:
                        raise
""")],
    "the list of one of the backends can't be downloaded during the first load, and it has a device that is not on the others",
    "the new device id collides with a device that is only on the list that could not be downloaded",
"""
for seed in range(12):
    c = Client(idmin=1, idmax=4, seed=seed)
    c.w.lists[("A", ME)] = {1: None}
    c.w.lists[("B", ME)] = {2: None}
    c.create("A", "B", f={"dl": [("B", ME)]})
    if c.create("A", "B") == "ok":
        expect(c.own == 3, c.own)
""")

bug("c16-download-failure-tolerated", "C16", [(SM,
"""                    # device being added to the lists and the lists republished.
                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
""",
"""                    # device being added to the lists and the lists republished.
                    try:
                        await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
                    except DeviceListDownloadFailed:
                        # One backend that works is enough to start with
                        if backend is self.__backends[0]:
                            raise
""")],
    "a load that adds two backends, while the device list of the second can't be downloaded after the bundle was uploaded",
    "loading returns although this device is not on the device list of the second backend",
"""
c = Client()
expect(c.create("A") == "ok", "create")
x = c.create("A", "B", f={"dl": [("B", ME)]})
expect(x != "ok" or c.own in c.w.lists.get(("B", ME), {}), "not listed")
""")

bug("c17-flag-decides", "C17", [(SM,
"""                    dict(active)
                )

            await self._upload_device_list(namespace, device_list)
""",
"""                    dict(active)
                )

                await self._upload_device_list(namespace, device_list)
""")],
    "the device list upload fails while a backend is removed, and the removal is repeated",
    "the second attempt deletes the bundle while this device is still listed",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.call("purge_backend", "B", f={"ul": ["B"]})
c.call("purge_backend", "B")
expect(c.own not in c.w.lists[("B", ME)] or c.bundle("B") is not None, "listed without bundle")
""")

bug("c21-list-if-inactive", "C21", [(SM,
"""        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local_bundle =""",
"""        for backend in self.__backends:
            device, _ = await self.get_own_device_information()
            if len(device.active) < len(self.__backends) or not all(active for _, active in device.active):
                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local_bundle =""")],
    "this device disappears from a published list without the client being told",
    "the consistency check returns without this device being listed again",
"""
c = Client()
expect(c.create("A") == "ok", "create")
del c.w.lists[("A", ME)][c.own]
c.must("ensure_data_consistency")
expect(c.own in c.w.lists[("A", ME)], "not listed")
""")

bug("c24-resume-skips", "C24", [(SM,
"""        for device_id in new_devices:
            await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
""",
"""        for device_id in new_devices:
            if (await storage.load(f"/devices/{bare_jid}/{device_id}/active")).is_just:
                # Stored already, by an update that was interrupted before the list was written
                continue
            await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
""")],
    "a crash in the middle of the entries of a new device, followed by the same update",
    "the device is known with incomplete data, operations on it fail",
"""
for n in range(1, 9):
    c = Client()
    expect(c.create("A") == "ok", "create")
    c.publish("A", BOB, 1)
    c.w.lists[("A", BOB)] = {1: None}
    c.call("refresh_device_list", "A", BOB, f={"crash": n})
    expect(c.create("A") == "ok", "create")
    c.must("refresh_device_list", "A", BOB)
    expect(len(c.must("get_device_information", BOB)) == 1, "device")
""")

bug("c19-list-deleted-first", "C19", [(SM,
"""        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))

        # Delete information about the identity keys used by this account
""",
"""        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
        await storage.delete(f"/devices/{bare_jid}/list")

        # Delete information about the identity keys used by this account
""")],
    "a purge that is interrupted after its first steps and repeated",
    "the second purge does not find the devices: their identity keys and trust levels survive it",
"""
for n in range(1, 16):
    c = Client()
    expect(c.create("A") == "ok", "create")
    c.device("A", BOB, 1)
    c.must("get_device_information", BOB)
    c.call("purge_bare_jid", BOB, f={"crash": n})
    expect(c.create("A") == "ok", "create")
    c.must("purge_bare_jid", BOB)
    c.publish("A", BOB, 1, "other")
    c.must("refresh_device_list", "A", BOB)
    d = [x for x in c.must("get_device_information", BOB)]
    expect([x.identity_key for x in d] == [ik("other")], f"{n} {d}")
""")

bug("c27-bundle-memo", "C27", [(SM,
"""                logging.getLogger(SessionManager.LOG_TAG).debug(f"Cached bundle: {bundle}")

                try:
""",
"""                known = self.__dict__.setdefault("_bundles", {})
                address = (backend.namespace, device.bare_jid, device.device_id)
                if bundle is None and address in known and known[address].identity_key == device.identity_key:
                    bundle = known[address]
                logging.getLogger(SessionManager.LOG_TAG).debug(f"Bundle: {bundle}")

                try:
"""), (SM,
"""                    # Build the session if necessary, and encrypt the key material
                    session, encrypted""",
"""                    # Build the session if necessary, and encrypt the key material
                    if bundle is not None:
                        known[address] = bundle
                    session, encrypted""")],
    "an account is purged, and written to again after the recipient has published another bundle",
    "the new session is built from the bundle of the first one, whose pre key is consumed; the recipient can't decrypt",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
x, r = c.encrypt([BOB])
expect(x == "ok", x)
c.must("purge_bare_jid", BOB)
c.publish("A", BOB, 1, pks=("q7", "q8"))
c.must("refresh_device_list", "A", BOB)
c.must("set_trust", BOB, ik("bob@x1"), "trusted")
c.must("get_device_information", BOB)
x, r = c.encrypt([BOB])
expect(x == "ok", x)
k = [x for m in r[0] for _, x in m.keys][0]
expect(k.pk in ("q7", "q8"), k.pk)
""")

bug("c27-empty-plaintext-none", "C27", [(SM,
"""        # Return the plaintext and information about the sending device
        return (plaintext, device, plain_key_material)
""",
"""        # Return the plaintext and information about the sending device
        return (plaintext or None, device, plain_key_material)
""")],
    "a message with an empty plaintext (which is not an empty message)",
    "the recipient gets None instead of the bytes that were encrypted",
"""
c = Client()
expect(c.create("A") == "ok", "create")
c.device("A", BOB, 1)
pt, _, _ = c.must("decrypt", c.first("A", BOB, 1, pt=b""))
expect(pt == b"", pt)
""")

bug("c34-chain-length-unloaded", "C34", [(SM,
"""        sessions = {
            backend.namespace: await backend.load_session(device.bare_jid, device.device_id)
            for backend
            in self.__backends
            if backend.namespace in device.namespaces
        }
""",
"""        backends = { backend.namespace: backend for backend in self.__backends }
        sessions = {
            namespace: await backends[namespace].load_session(device.bare_jid, device.device_id)
            for namespace
            in device.namespaces
        }
""")],
    "a device that supports a backend which is not loaded (any more)",
    "asking for its sending chain lengths fails with a KeyError",
"""
c = Client()
expect(c.create("A", "B") == "ok", "create")
c.device("A", BOB, 1)
c.device("B", BOB, 1)
expect(c.create("A") == "ok", "create")
d = list(c.must("get_device_information", BOB))
expect(len(d) == 1, d)
expect(c.must("get_sending_chain_length", d[0]) == {"A": None}, "lengths")
""")

bug("c32-int-as-float", "C32", [("storage.py",
"""        def check_type(value: JSONType) -> PrimitiveTypeT:
            if isinstance(value, primitive):
                return value
""",
"""        def check_type(value: JSONType) -> PrimitiveTypeT:
            if primitive is float and isinstance(value, int):
                return cast(PrimitiveTypeT, float(value))
            if isinstance(value, primitive):
                return value
""")],
    "an integer (or truth value) loaded as float",
    "a number of another type (and, beyond 2^53, of another value) is returned instead of a TypeError",
"""
import asyncio
from omemo.storage import Storage, Just, Nothing
class Mem(Storage):
    def __init__(self):
        super().__init__(True)
        self.d = {}
    async def _load(self, key):
        return Just(self.d[key]) if key in self.d else Nothing()
    async def _store(self, key, value):
        self.d[key] = value
    async def _delete(self, key):
        self.d.pop(key, None)
async def main():
    m = Mem()
    await m.store("k", 2 ** 53 + 1)
    try:
        expect((await m.load_primitive("k", float)).from_just() == 2 ** 53 + 1, "value")
    except TypeError:
        pass
asyncio.run(main())
""")

bug("c33-leftover-key", "C33", [("identity_key_pair.py",
"""            is_seed = True
            key = secrets.token_bytes(32)
""",
"""            is_seed = True
            # A key without its type was left by an interrupted first load
            key = (await storage.load_bytes("/ikp/key")).maybe(secrets.token_bytes(32))
""")],
    "a key in the storage without the flag that tells what it is",
    "the leftover is used as seed, instead of a fresh one",
"""
import asyncio, base64, json
from omemo.identity_key_pair import IdentityKeyPair
w = World(ME, False, None, None, 0)
w.data["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(b"x" * 31).decode())
k = w.run(IdentityKeyPair.get(FaultStorage(w, True)))
expect(k[0] == "ok" and len(k[1].seed) == 32 and k[1].seed != b"x" * 32, k)
""")

bug("c29-default-capped", "C29", [("backend.py",
"""        self.__max_num_per_message_skipped_keys = max_num_per_session_skipped_keys if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
""",
"""        self.__max_num_per_message_skipped_keys = min(max_num_per_session_skipped_keys, 1000) if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
""")],
    "a per-session limit above 1000 and no per-message limit",
    "the per-message limit is 1000 instead of the per-session limit",
"""
class B(omemo.Backend):
    namespace = "x"
B.__abstractmethods__ = frozenset()
b = B(5000)
expect(b.max_num_per_message_skipped_keys == 5000, b.max_num_per_message_skipped_keys)
""")
