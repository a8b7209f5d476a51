------------------------------ MODULE ClientMC ------------------------------
(* Instances of Client.tla: constants that cannot be written in a configuration file. *)
EXTENDS Client
c_ns1 == <<"n1">>
c_ns2 == <<"n1", "n2">>
c_lists == <<"list", "update", "refresh", "refresh_all", "purge_jid">>
c_own == <<"list", "update", "refresh", "set_label", "ensure", "ownbundle">>
c_trust == <<"set_trust", "update", "bundle", "encrypt">>
c_addr == <<"update", "nobundle", "encrypt">>
c_pins == <<"bundle", "refresh", "info", "encrypt", "decrypt", "replace">>
c_sess == <<"encrypt", "decrypt", "create">>
c_sync == <<"decrypt", "before", "after", "purge_jid", "create", "purge_backend", "encrypt">>
c_load == <<"create", "purge_backend", "list", "ownbundle", "set_label">>
c_repl == <<"encrypt", "replace", "decrypt">>
c_par == <<"update", "refresh", "info", "set_trust", "encrypt", "decrypt", "replace">>
c_all == <<"create", "list", "list", "bundle", "bundle", "nobundle", "ownbundle", "update", "update", "refresh", "refresh_all",
           "set_trust", "set_trust", "set_label", "info", "before", "after", "ensure", "replace", "encrypt", "encrypt", "encrypt",
           "decrypt", "decrypt", "decrypt", "decrypt", "decrypt", "purge_backend", "purge_jid">>
=============================================================================
