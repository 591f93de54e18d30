---------------------------- MODULE MCEntities ----------------------------
EXTENDS RecEntities, Records
\* Fields whose value does not survive in the implementation either: two fields of the record
\* share a group code, so no reader can tell them apart (known_findings.jsonl).
MCLossy == 
    {"E.ProxyEntity"} \X {"common.__owner_handle", "entity_data_string", "graphics_data_string", 
        "object_id_1"}
ASSUME EmitMeta
===========================================================================
