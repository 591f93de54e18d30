---------------------------- MODULE RecObjects ----------------------------
(* Record catalogue, drafted from the DXF record definitions by tools/xml2tla.py and
   frozen here: what each record kind contains, with which group codes, in which file
   versions, and the values the model assigns to each field.  See Records.tla. *)
EXTENDS RecOps

OCommon == <<
  [n |-> "common.__owner_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A01","s:A01">>>>>>, <<<<<<"h:FFFFFE","s:FFFFFE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>

O_AcadProxyObject ==
[key |-> "O.AcadProxyObject", tstr |-> "ACAD_PROXY_OBJECT", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 10,
 fields |-> OCommon \o <<
  [n |-> "proxy_object_class_id", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:499")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "application_object_class_id", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:500")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:2147483644")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483645")>>>>>>],
  [n |-> "size_in_bits", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:41")>>>>, <<<<S("i:-42")>>>>, <<<<S("i:2147483643")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483644")>>>>>>],
  [n |-> "binary_object_data", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("x:0501FF")>>>>, <<<<S("x:0501FF")>>,<<S("x:00")>>,<<S("x:05060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF00010203")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:0501FF")>>>>>>],
  [n |-> "object_ids", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:object_ids 6")>>>>, <<<<S("s:object_ids 6")>>,<<S("s:a6")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a6")>>,<<S("s:object_ids 6")>>>>>>],
  [n |-> "__object_ids_a", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("s:__object_ids_a 7")>>>>, <<<<S("s:__object_ids_a 7")>>,<<S("s:a7")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a7")>>,<<S("s:__object_ids_a 7")>>>>>>],
  [n |-> "__object_ids_b", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("s:__object_ids_b 8")>>>>, <<<<S("s:__object_ids_b 8")>>,<<S("s:a8")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a8")>>,<<S("s:__object_ids_b 8")>>>>>>],
  [n |-> "__object_ids_c", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("s:__object_ids_c 9")>>>>, <<<<S("s:__object_ids_c 9")>>,<<S("s:a9")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a9")>>,<<S("s:__object_ids_c 9")>>>>>>],
  [n |-> "__object_ids_d", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("s:__object_ids_d 10")>>>>, <<<<S("s:__object_ids_d 10")>>,<<S("s:a10")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a10")>>,<<S("s:__object_ids_d 10")>>>>>>],
  [n |-> "__object_drawing_format", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:111")>>>>, <<<<S("i:0")>>>>, <<<<S("i:2000000110")>>>>>>],
  [n |-> "is_original_object_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbProxyObject", 14, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<91>>, 1, 21, FALSE, 0),
  W(4, <<93>>, 1, 21, FALSE, 0),
  W(5, <<310>>, 1, 21, FALSE, 0),
  W(6, <<330>>, 1, 21, FALSE, 0),
  M(94, "i:0", 1, 21),
  W(11, <<95>>, 1, 21, FALSE, 0),
  W(12, <<70>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<91,3,1>>,<<93,4,1>>,<<310,5,1>>,<<330,6,1>>,<<340,6,1>>,<<350,6,1>>,<<360,6,1>>,<<95,11,1>>,<<70,12,1>>,<<330,1,1>>>>]

O_DictionaryWithDefault ==
[key |-> "O.DictionaryWithDefault", tstr |-> "ACDBDICTIONARYWDFLT", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "duplicate_record_handling", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NotApplicable","i:0">>>>>>, c |-> <<<<<<<<"e:NotApplicable","i:0">>>>>>, <<<<<<"e:KeepExisting","i:1">>>>>>, <<<<<<"e:UseClone","i:2">>>>>>, <<<<<<"e:UpdateXrefAndName","i:3">>>>>>, <<<<<<"e:UpdateName","i:4">>>>>>, <<<<<<"e:UnmangleName","i:5">>>>>>>>],
  [n |-> "default_handle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A03","s:A03">>>>>>, <<<<<<"h:FFFFFC","s:FFFFFC">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "value_handles", ks |-> <<"@k","@v">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:AA"),<<"h:B1","s:B1">>>>,<<S("s:BB"),<<"h:B2","s:B2">>>>>>, <<<<S("s:only"),<<"h:FFFF","s:FFFF">>>>>>, <<>>, <<<<S("s:A"),<<"h:1","s:1">>>>,<<S("s:a"),<<"h:2","s:2">>>>,<<S("s:b c"),<<"h:3","s:3">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbDictionary", 1, 21),
  W(2, <<281>>, 16, 21, FALSE, 0),
  W(3, <<340>>, 1, 21, FALSE, 0),
  W(4, <<3,350>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<281,2,1>>,<<340,3,1>>,<<330,1,1>>>>]

O_PlaceHolder ==
[key |-> "O.PlaceHolder", tstr |-> "ACDBPLACEHOLDER", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 0,
 fields |-> OCommon \o <<
>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<330,1,1>>>>]

O_NavisWorksModelDefinition ==
[key |-> "O.NavisWorksModelDefinition", tstr |-> "AcDbNavisworksModelDef", min |-> 21, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 8,
 fields |-> OCommon \o <<
  [n |-> "model_path", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:model_path 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "is_model_loaded_on_drawing_open", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "minimum_extent", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25"),S("f:171.25"),S("f:181.25")>>>>, <<<<S("f:-162.5"),S("f:-172.5"),S("f:-182.5")>>>>, <<<<S("f:160003.125"),S("f:170003.125"),S("f:180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "maximum_extent", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25"),S("f:211.25"),S("f:221.25")>>>>, <<<<S("f:-202.5"),S("f:-212.5"),S("f:-222.5")>>>>, <<<<S("f:200003.125"),S("f:210003.125"),S("f:220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "is_host_geometry_drawn", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbNavisworksModelDef", 1, 21),
  W(2, <<1>>, 1, 21, FALSE, 0),
  W(3, <<290>>, 1, 21, FALSE, 0),
  W(4, <<10,20,30>>, 1, 21, FALSE, 0),
  W(5, <<11,21,31>>, 1, 21, FALSE, 0),
  W(6, <<290>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<1,2,1>>,<<290,3,1>>,<<10,4,1>>,<<20,4,2>>,<<30,4,3>>,<<11,5,1>>,<<21,5,2>>,<<31,5,3>>,<<330,1,1>>>>]

O_Dictionary ==
[key |-> "O.Dictionary", tstr |-> "DICTIONARY", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "is_hard_owner", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "duplicate_record_handling", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NotApplicable","i:0">>>>>>, c |-> <<<<<<<<"e:NotApplicable","i:0">>>>>>, <<<<<<"e:KeepExisting","i:1">>>>>>, <<<<<<"e:UseClone","i:2">>>>>>, <<<<<<"e:UpdateXrefAndName","i:3">>>>>>, <<<<<<"e:UpdateName","i:4">>>>>>, <<<<<<"e:UnmangleName","i:5">>>>>>>>],
  [n |-> "value_handles", ks |-> <<"@k","@v">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:AA"),<<"h:B1","s:B1">>>>,<<S("s:BB"),<<"h:B2","s:B2">>>>>>, <<<<S("s:only"),<<"h:FFFF","s:FFFF">>>>>>, <<>>, <<<<S("s:A"),<<"h:1","s:1">>>>,<<S("s:a"),<<"h:2","s:2">>>>,<<S("s:b c"),<<"h:3","s:3">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbDictionary", 1, 21),
  W(2, <<280>>, 16, 21, FALSE, 0),
  W(3, <<281>>, 16, 21, FALSE, 0),
  W(4, <<3,360>>, 1, 21, FALSE, 2),
  W(4, <<3,350>>, 1, 21, FALSE, -2)>>,
 rd |-> <<<<280,2,1>>,<<281,3,1>>,<<330,1,1>>>>]

O_DictionaryVariable ==
[key |-> "O.DictionaryVariable", tstr |-> "DICTIONARYVAR", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "object_schema_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:32765")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32766")>>>>>>],
  [n |-> "value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:value 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:DictionaryVariables", 1, 21),
  W(2, <<280>>, 1, 21, FALSE, 0),
  W(3, <<1>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,2,1>>,<<1,3,1>>,<<330,1,1>>>>]

O_DimensionAssoc ==
[key |-> "O.DimensionAssoc", tstr |-> "DIMASSOC", min |-> 17, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 19,
 fields |-> OCommon \o <<
  [n |-> "__dimension_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A02","s:A02">>>>>>, <<<<<<"h:FFFFFD","s:FFFFFD">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "associativity_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:2147483644")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483645")>>>>>>],
  [n |-> "is_trans_space", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "rotated_dimension_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Parallel","i:0">>>>>>, c |-> <<<<<<<<"e:Parallel","i:0">>>>>>, <<<<<<"e:Perpendicular","i:1">>>>>>>>],
  [n |-> "class_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:AcDbOsnapPointRef")>>>>, c |-> <<<<<<S("s:class_name 6")>>>>, <<<<S("s:a6")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 6 c")>>>>>>],
  [n |-> "object_osnap_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Endpoint","i:1">>>>>>, <<<<<<"e:Midpoint","i:2">>>>>>, <<<<<<"e:Center","i:3">>>>>>, <<<<<<"e:Node","i:4">>>>>>, <<<<<<"e:Quadrant","i:5">>>>>>, <<<<<<"e:Intersection","i:6">>>>>>, <<<<<<"e:Insertion","i:7">>>>>>, <<<<<<"e:Perpendicular","i:8">>>>>>, <<<<<<"e:Tangent","i:9">>>>>>, <<<<<<"e:Nearest","i:10">>>>>>, <<<<<<"e:ApparentIntersection","i:11">>>>>>, <<<<<<"e:Parallel","i:12">>>>>>, <<<<<<"e:StartPoint","i:13">>>>>>>>],
  [n |-> "__main_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A08","s:A08">>>>>>, <<<<<<"h:FFFFF7","s:FFFFF7">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "main_object_subentity_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Edge","i:1">>>>>>, c |-> <<<<<<<<"e:Edge","i:1">>>>>>, <<<<<<"e:Face","i:2">>>>>>>>],
  [n |-> "main_object_gs_marker_index", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:101")>>>>, <<<<S("i:-102")>>>>, <<<<S("i:2147483637")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483638")>>>>>>],
  [n |-> "__main_object_xref_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A0B","s:A0B">>>>>>, <<<<<<"h:FFFFF4","s:FFFFF4">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "near_osnap_geometry_parameter", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:121.25")>>>>, <<<<S("f:-122.5")>>>>, <<<<S("f:120003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1181640625")>>>>>>],
  [n |-> "osnap_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:521.25"),S("f:531.25"),S("f:541.25")>>>>, <<<<S("f:-522.5"),S("f:-532.5"),S("f:-542.5")>>>>, <<<<S("f:520003.125"),S("f:530003.125"),S("f:540003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__intersection_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A0E","s:A0E">>>>>>, <<<<<<"h:FFFFF1","s:FFFFF1">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "intersection_subentity_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Edge","i:1">>>>>>, c |-> <<<<<<<<"e:Edge","i:1">>>>>>, <<<<<<"e:Face","i:2">>>>>>>>],
  [n |-> "intersection_object_gs_marker_index", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:161")>>>>, <<<<S("i:-162")>>>>, <<<<S("i:2147483631")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483632")>>>>>>],
  [n |-> "__insertion_object_xref_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A11","s:A11">>>>>>, <<<<<<"h:FFFFEE","s:FFFFEE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "has_last_point_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbDimAssoc", 1, 21),
  W(2, <<330>>, 1, 21, FALSE, 0),
  W(3, <<90>>, 1, 21, FALSE, 0),
  W(4, <<70>>, 1, 21, FALSE, 0),
  W(5, <<71>>, 1, 21, FALSE, 0),
  W(6, <<1>>, 1, 21, FALSE, 0),
  W(7, <<72>>, 1, 21, FALSE, 0),
  W(8, <<331>>, 1, 21, FALSE, 0),
  W(9, <<73>>, 1, 21, FALSE, 0),
  W(10, <<91>>, 1, 21, FALSE, 0),
  W(11, <<301>>, 1, 21, FALSE, 0),
  W(12, <<40>>, 1, 21, FALSE, 0),
  W(13, <<10,20,30>>, 1, 21, FALSE, 0),
  W(14, <<332>>, 1, 21, FALSE, 0),
  W(15, <<74>>, 1, 21, FALSE, 0),
  W(16, <<92>>, 1, 21, FALSE, 0),
  W(17, <<302>>, 1, 21, FALSE, 0),
  W(18, <<75>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<330,2,1>>,<<90,3,1>>,<<70,4,1>>,<<71,5,1>>,<<1,6,1>>,<<72,7,1>>,<<331,8,1>>,<<73,9,1>>,<<91,10,1>>,<<301,11,1>>,<<40,12,1>>,<<10,13,1>>,<<20,13,2>>,<<30,13,3>>,<<332,14,1>>,<<74,15,1>>,<<92,16,1>>,<<302,17,1>>,<<75,18,1>>,<<330,1,1>>>>]

O_Field ==
[key |-> "O.Field", tstr |-> "FIELD", min |-> 17, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 23,
 fields |-> OCommon \o <<
  [n |-> "evaluator_id", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:evaluator_id 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "field_code_string", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:field_code_str 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "field_code_string_overflow", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:field_code_str 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "__format_string", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:__format_strin 5")>>>>, <<<<S("s:a5")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 5 c")>>>>>>],
  [n |-> "evaluation_error_message", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:evaluation_err 6")>>>>, <<<<S("s:a6")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 6 c")>>>>>>],
  [n |-> "__child_field_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:71")>>>>, <<<<S("i:-72")>>>>, <<<<S("i:2147483640")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483641")>>>>>>],
  [n |-> "__child_fields_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A08","s:A08">>>>>>, <<<<<<"h:A08","s:A08">>>>,<<<<"h:FFFFF7","s:FFFFF7">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFF7","s:FFFFF7">>>>,<<<<"h:A08","s:A08">>>>>>>>],
  [n |-> "evaluation_option", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:91")>>>>, <<<<S("i:-92")>>>>, <<<<S("i:2147483638")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483639")>>>>>>],
  [n |-> "filling_option", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:101")>>>>, <<<<S("i:-102")>>>>, <<<<S("i:2147483637")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483638")>>>>>>],
  [n |-> "field_state", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:111")>>>>, <<<<S("i:-112")>>>>, <<<<S("i:2147483636")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483637")>>>>>>],
  [n |-> "evaluation_status", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:121")>>>>, <<<<S("i:-122")>>>>, <<<<S("i:2147483635")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483636")>>>>>>],
  [n |-> "evaluation_error_code", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:131")>>>>, <<<<S("i:-132")>>>>, <<<<S("i:2147483634")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483635")>>>>>>],
  [n |-> "__object_id_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:141")>>>>, <<<<S("i:-142")>>>>, <<<<S("i:2147483633")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483634")>>>>>>],
  [n |-> "__objects_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A0F","s:A0F">>>>>>, <<<<<<"h:A0F","s:A0F">>>>,<<<<"h:FFFFF0","s:FFFFF0">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFF0","s:FFFFF0">>>>,<<<<"h:A0F","s:A0F">>>>>>>>],
  [n |-> "__data_set_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:161")>>>>, <<<<S("i:-162")>>>>, <<<<S("i:2147483631")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483632")>>>>>>],
  [n |-> "field_data_keys", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:field_data_key 17")>>>>, <<<<S("s:field_data_key 17")>>,<<S("s:a17")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a17")>>,<<S("s:field_data_key 17")>>>>>>],
  [n |-> "evaluated_cache_key", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:ACFD_FIELD_VALUE")>>>>, c |-> <<<<<<S("s:evaluated_cach 18")>>>>, <<<<S("s:a18")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 18 c")>>>>>>],
  [n |-> "__value_type_code", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:2147483628")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483629")>>>>>>],
  [n |-> "__long_value", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:2147483627")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483628")>>>>>>],
  [n |-> "__double_value", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "__id_value", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A16","s:A16">>>>>>, <<<<<<"h:FFFFE9","s:FFFFE9">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__binary_data_buffer_size", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:2147483624")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483625")>>>>>>],
  [n |-> "__binary_data", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("x:")>>>>, c |-> <<<<<<S("x:1801FF")>>>>, <<<<S("x:00")>>>>, <<<<S("x:18191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF000102030405060708090A0B0C0D0E0F10111213141516")>>>>, <<<<S("x:0A0D5C5E")>>>>>>],
  [n |-> "__format_string_code301", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:__format_strin 25")>>>>, <<<<S("s:a25")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 25 c")>>>>>>],
  [n |-> "__format_string_overflow", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:__format_strin 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "__format_string_length", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:2147483620")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483621")>>>>>>],
  [n |-> "__child_field_count_value_type_code", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:281")>>,<<S("i:-282")>>,<<S("i:2147483619")>>>>, <<>>, <<<<S("i:-282")>>,<<S("i:281")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  W(2, <<1>>, 1, 21, FALSE, 0),
  W(3, <<2>>, 1, 21, FALSE, 0),
  W(4, <<3>>, 1, 21, FALSE, 0),
  W(5, <<4>>, 1, 18, FALSE, 0),
  W(6, <<300>>, 1, 18, FALSE, 0),
  N(90, 8, "i", 1, 21),
  W(8, <<360>>, 1, 21, FALSE, 0),
  W(9, <<91>>, 1, 18, FALSE, 0),
  W(10, <<92>>, 1, 18, FALSE, 0),
  W(11, <<94>>, 1, 18, FALSE, 0),
  W(12, <<95>>, 1, 18, FALSE, 0),
  W(13, <<96>>, 1, 18, FALSE, 0),
  N(97, 15, "i", 1, 21),
  W(15, <<330>>, 1, 18, FALSE, 0),
  W(15, <<331>>, 19, 21, FALSE, 0),
  N(93, 17, "i", 1, 21),
  W(17, <<6>>, 1, 21, FALSE, 0),
  W(18, <<7>>, 1, 21, FALSE, 0),
  W(19, <<90>>, 1, 21, FALSE, 0),
  W(5, <<301>>, 19, 21, FALSE, 0),
  W(26, <<9>>, 1, 21, FALSE, 0),
  M(98, "*", 1, 21)>>,
 rd |-> <<<<1,2,1>>,<<2,3,1>>,<<3,4,1>>,<<4,5,1>>,<<300,6,1>>,<<90,7,1>>,<<360,8,1>>,<<91,9,1>>,<<92,10,1>>,<<94,11,1>>,<<95,12,1>>,<<96,13,1>>,<<97,14,1>>,<<331,15,1>>,<<93,16,1>>,<<6,17,1>>,<<7,18,1>>,<<140,21,1>>,<<330,22,1>>,<<310,24,1>>,<<301,25,1>>,<<9,26,1>>,<<98,27,1>>,<<330,1,1>>>>]

O_GeoData ==
[key |-> "O.GeoData", tstr |-> "GEODATA", min |-> 19, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 36,
 fields |-> OCommon \o <<
  [n |-> "version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2009","i:1">>>>>>, c |-> <<<<<<<<"e:R2009","i:1">>>>>>, <<<<<<"e:R2010","i:2">>>>>>>>],
  [n |-> "coordinate_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Unknown","i:0">>>>>>, c |-> <<<<<<<<"e:Unknown","i:0">>>>>>, <<<<<<"e:LocalGrid","i:1">>>>>>, <<<<<<"e:ProjectedGrid","i:2">>>>>>, <<<<<<"e:Geographic","i:3">>>>>>>>],
  [n |-> "design_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25"),S("f:171.25"),S("f:181.25")>>>>, <<<<S("f:-162.5"),S("f:-172.5"),S("f:-182.5")>>>>, <<<<S("f:160003.125"),S("f:170003.125"),S("f:180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "reference_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25"),S("f:211.25"),S("f:221.25")>>>>, <<<<S("f:-202.5"),S("f:-212.5"),S("f:-222.5")>>>>, <<<<S("f:200003.125"),S("f:210003.125"),S("f:220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "north_vector", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25"),S("f:251.25")>>>>, <<<<S("f:-242.5"),S("f:-252.5")>>>>, <<<<S("f:240003.125"),S("f:250003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "horizontal_unit_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "vertical_unit_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "horizontal_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Unitless","i:0">>>>>>, c |-> <<<<<<<<"e:Unitless","i:0">>>>>>, <<<<<<"e:Inches","i:1">>>>>>, <<<<<<"e:Feet","i:2">>>>>>, <<<<<<"e:Miles","i:3">>>>>>, <<<<<<"e:Millimeters","i:4">>>>>>, <<<<<<"e:Centimeters","i:5">>>>>>, <<<<<<"e:Meters","i:6">>>>>>, <<<<<<"e:Kilometers","i:7">>>>>>, <<<<<<"e:Microinches","i:8">>>>>>, <<<<<<"e:Mils","i:9">>>>>>, <<<<<<"e:Yards","i:10">>>>>>, <<<<<<"e:Angstroms","i:11">>>>>>, <<<<<<"e:Nanometers","i:12">>>>>>, <<<<<<"e:Microns","i:13">>>>>>, <<<<<<"e:Decimeters","i:14">>>>>>, <<<<<<"e:Decameters","i:15">>>>>>, <<<<<<"e:Hectometers","i:16">>>>>>, <<<<<<"e:Gigameters","i:17">>>>>>, <<<<<<"e:AstronomicalUnits","i:18">>>>>>, <<<<<<"e:LightYears","i:19">>>>>>, <<<<<<"e:Parsecs","i:20">>>>>>, <<<<<<"e:USSurveyFeet","i:21">>>>>>, <<<<<<"e:USSurveyInch","i:22">>>>>>, <<<<<<"e:USSurveyYard","i:23">>>>>>, <<<<<<"e:USSurveyMile","i:24">>>>>>>>],
  [n |-> "vertical_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Unitless","i:0">>>>>>, c |-> <<<<<<<<"e:Unitless","i:0">>>>>>, <<<<<<"e:Inches","i:1">>>>>>, <<<<<<"e:Feet","i:2">>>>>>, <<<<<<"e:Miles","i:3">>>>>>, <<<<<<"e:Millimeters","i:4">>>>>>, <<<<<<"e:Centimeters","i:5">>>>>>, <<<<<<"e:Meters","i:6">>>>>>, <<<<<<"e:Kilometers","i:7">>>>>>, <<<<<<"e:Microinches","i:8">>>>>>, <<<<<<"e:Mils","i:9">>>>>>, <<<<<<"e:Yards","i:10">>>>>>, <<<<<<"e:Angstroms","i:11">>>>>>, <<<<<<"e:Nanometers","i:12">>>>>>, <<<<<<"e:Microns","i:13">>>>>>, <<<<<<"e:Decimeters","i:14">>>>>>, <<<<<<"e:Decameters","i:15">>>>>>, <<<<<<"e:Hectometers","i:16">>>>>>, <<<<<<"e:Gigameters","i:17">>>>>>, <<<<<<"e:AstronomicalUnits","i:18">>>>>>, <<<<<<"e:LightYears","i:19">>>>>>, <<<<<<"e:Parsecs","i:20">>>>>>, <<<<<<"e:USSurveyFeet","i:21">>>>>>, <<<<<<"e:USSurveyInch","i:22">>>>>>, <<<<<<"e:USSurveyYard","i:23">>>>>>, <<<<<<"e:USSurveyMile","i:24">>>>>>>>],
  [n |-> "up_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:441.25"),S("f:451.25"),S("f:461.25")>>>>, <<<<S("f:-442.5"),S("f:-452.5"),S("f:-462.5")>>>>, <<<<S("f:440003.125"),S("f:450003.125"),S("f:460003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "scale_estimation_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:1">>>>>>, c |-> <<<<<<<<"e:None","i:1">>>>>>, <<<<<<"e:UserSpecified","i:2">>>>>>, <<<<<<"e:GridAtReferencePoint","i:3">>>>>>, <<<<<<"e:Prismoidal","i:4">>>>>>>>],
  [n |-> "use_sea_level_correction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "user_specified_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:141.25")>>>>, <<<<S("f:-142.5")>>>>, <<<<S("f:140003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1376953125")>>>>>>],
  [n |-> "sea_level_elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:151.25")>>>>, <<<<S("f:-152.5")>>>>, <<<<S("f:150003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1474609375")>>>>>>],
  [n |-> "coordinate_projection_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25")>>>>, <<<<S("f:-162.5")>>>>, <<<<S("f:160003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1572265625")>>>>>>],
  [n |-> "coordinate_system_definition", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:coordinate_sys 17")>>>>, <<<<S("s:a17")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 17 c")>>>>>>],
  [n |-> "geo_rss_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:geo_rss_tag 18")>>>>, <<<<S("s:a18")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 18 c")>>>>>>],
  [n |-> "observation_from_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:observation_fr 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "observation_to_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:observation_to 20")>>>>, <<<<S("s:a20")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 20 c")>>>>>>],
  [n |-> "observation_coverage_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:observation_co 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "geo_mesh_points", ks |-> <<"source.x","source.y","destination.x","destination.y">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:881.25"),S("f:891.25"),S("f:901.25"),S("f:911.25")>>>>, <<<<S("f:881.25"),S("f:891.25"),S("f:901.25"),S("f:911.25")>>,<<S("f:-882.5"),S("f:-892.5"),S("f:-902.5"),S("f:-912.5")>>,<<S("f:880003.125"),S("f:890003.125"),S("f:900003.125"),S("f:910003.125")>>>>, <<>>, <<<<S("f:-882.5"),S("f:-892.5"),S("f:-902.5"),S("f:-912.5")>>,<<S("f:881.25"),S("f:891.25"),S("f:901.25"),S("f:911.25")>>>>>>],
  [n |-> "__geo_mesh_point_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:2147483624")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483625")>>>>>>],
  [n |-> "__source_mesh_x_points", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:241.25")>>,<<S("f:-242.5")>>,<<S("f:240003.125")>>>>, <<>>, <<<<S("f:-242.5")>>,<<S("f:241.25")>>>>>>],
  [n |-> "__source_mesh_y_points", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:251.25")>>,<<S("f:-252.5")>>,<<S("f:250003.125")>>>>, <<>>, <<<<S("f:-252.5")>>,<<S("f:251.25")>>>>>>],
  [n |-> "__destination_mesh_x_points", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:261.25")>>>>, <<<<S("f:261.25")>>,<<S("f:-262.5")>>,<<S("f:260003.125")>>>>, <<>>, <<<<S("f:-262.5")>>,<<S("f:261.25")>>>>>>],
  [n |-> "__destination_mesh_y_points", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:271.25")>>,<<S("f:-272.5")>>,<<S("f:270003.125")>>>>, <<>>, <<<<S("f:-272.5")>>,<<S("f:271.25")>>>>>>],
  [n |-> "face_indices", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<<<"f:1121.0","i:1121">>,<<"f:1131.0","i:1131">>,<<"f:1141.0","i:1141">>>>>>, <<<<<<"f:1121.0","i:1121">>,<<"f:1131.0","i:1131">>,<<"f:1141.0","i:1141">>>>,<<<<"f:1122.0","i:1122">>,<<"f:1132.0","i:1132">>,<<"f:1142.0","i:1142">>>>,<<<<"f:0.0","i:0">>,<<"f:0.0","i:0">>,<<"f:0.0","i:0">>>>>>, <<>>, <<<<<<"f:1122.0","i:1122">>,<<"f:1132.0","i:1132">>,<<"f:1142.0","i:1142">>>>,<<<<"f:1121.0","i:1121">>,<<"f:1131.0","i:1131">>,<<"f:1141.0","i:1141">>>>>>>>],
  [n |-> "__faces_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:291")>>>>, <<<<S("i:-292")>>>>, <<<<S("i:2147483618")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483619")>>>>>>],
  [n |-> "__face_point_index_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"f:301.0","i:301">>>>>>, <<<<<<"f:301.0","i:301">>>>,<<<<"f:302.0","i:302">>>>,<<<<"f:0.0","i:0">>>>>>, <<>>, <<<<<<"f:302.0","i:302">>>>,<<<<"f:301.0","i:301">>>>>>>>],
  [n |-> "__face_point_index_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"f:311.0","i:311">>>>>>, <<<<<<"f:311.0","i:311">>>>,<<<<"f:312.0","i:312">>>>,<<<<"f:0.0","i:0">>>>>>, <<>>, <<<<<<"f:312.0","i:312">>>>,<<<<"f:311.0","i:311">>>>>>>>],
  [n |-> "__face_point_index_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"f:321.0","i:321">>>>>>, <<<<<<"f:321.0","i:321">>>>,<<<<"f:322.0","i:322">>>>,<<<<"f:0.0","i:0">>>>>>, <<>>, <<<<<<"f:322.0","i:322">>>>,<<<<"f:321.0","i:321">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0),
  W(4, <<10,20,30>>, 1, 21, FALSE, 0),
  W(5, <<11,21,31>>, 1, 21, FALSE, 0),
  W(6, <<12,22>>, 1, 21, FALSE, 0),
  W(7, <<40>>, 1, 21, FALSE, 0),
  W(8, <<41>>, 1, 21, FALSE, 0),
  W(9, <<91>>, 1, 21, FALSE, 0),
  W(10, <<92>>, 1, 21, FALSE, 0),
  W(11, <<210,220,230>>, 1, 21, FALSE, 0),
  W(12, <<95>>, 1, 21, FALSE, 0),
  W(13, <<294>>, 1, 21, FALSE, 0),
  W(14, <<141>>, 1, 21, FALSE, 0),
  W(15, <<142>>, 1, 21, FALSE, 0),
  W(16, <<143>>, 1, 21, FALSE, 0),
  W(17, <<301>>, 1, 21, FALSE, 0),
  W(18, <<302>>, 1, 21, FALSE, 0),
  W(19, <<305>>, 1, 21, FALSE, 0),
  W(20, <<306>>, 1, 21, FALSE, 0),
  W(21, <<307>>, 1, 21, FALSE, 0),
  N(93, 22, "i", 1, 21),
  W(22, <<13,23,14,24>>, 1, 21, FALSE, 0),
  N(96, 28, "i", 1, 21),
  W(28, <<97,98,99>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<70,3,1>>,<<10,4,1>>,<<20,4,2>>,<<30,4,3>>,<<11,5,1>>,<<21,5,2>>,<<31,5,3>>,<<12,6,1>>,<<22,6,2>>,<<40,7,1>>,<<41,8,1>>,<<91,9,1>>,<<92,10,1>>,<<210,11,1>>,<<220,11,2>>,<<230,11,3>>,<<95,12,1>>,<<294,13,1>>,<<141,14,1>>,<<142,15,1>>,<<143,16,1>>,<<301,17,1>>,<<302,18,1>>,<<305,19,1>>,<<306,20,1>>,<<307,21,1>>,<<93,23,1>>,<<13,24,1>>,<<23,25,1>>,<<14,26,1>>,<<24,27,1>>,<<96,29,1>>,<<97,28,1>>,<<98,28,2>>,<<99,28,3>>,<<330,1,1>>>>]

O_Group ==
[key |-> "O.Group", tstr |-> "GROUP", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 4,
 fields |-> OCommon \o <<
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "is_named", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:0">>>>>>, <<<<<<"b:false","i:1">>>>>>>>],
  [n |-> "is_selectable", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__entities_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A05","s:A05">>>>>>, <<<<<<"h:A05","s:A05">>>>,<<<<"h:FFFFFA","s:FFFFFA">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFA","s:FFFFFA">>>>,<<<<"h:A05","s:A05">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbGroup", 1, 21),
  W(2, <<300>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0),
  W(4, <<71>>, 1, 21, FALSE, 0),
  W(5, <<340>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<300,2,1>>,<<70,3,1>>,<<71,4,1>>,<<340,5,1>>,<<330,1,1>>>>]

O_IdBuffer ==
[key |-> "O.IdBuffer", tstr |-> "IDBUFFER", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "__entities_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A02","s:A02">>>>>>, <<<<<<"h:A02","s:A02">>>>,<<<<"h:FFFFFD","s:FFFFFD">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFD","s:FFFFFD">>>>,<<<<"h:A02","s:A02">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbIdBuffer", 1, 21),
  W(2, <<330>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<330,2,1>>,<<330,1,1>>>>]

O_ImageDefinition ==
[key |-> "O.ImageDefinition", tstr |-> "IMAGEDEF", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 8,
 fields |-> OCommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "file_path", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:file_path 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "image_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"i:0","f:0.0">>>>>>, c |-> <<<<<<<<"i:41","f:41.0">>>>>>, <<<<<<"i:-42","f:-42.0">>>>>>, <<<<<<"i:2147483643","f:2147483643.0">>>>>>, <<<<<<"i:0","f:0.0">>>>>>, <<<<<<"i:-2147483644","f:-2147483644.0">>>>>>>>],
  [n |-> "image_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"i:0","f:0.0">>>>>>, c |-> <<<<<<<<"i:51","f:51.0">>>>>>, <<<<<<"i:-52","f:-52.0">>>>>>, <<<<<<"i:2147483642","f:2147483642.0">>>>>>, <<<<<<"i:0","f:0.0">>>>>>, <<<<<<"i:-2147483643","f:-2147483643.0">>>>>>>>],
  [n |-> "pixel_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "pixel_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "is_image_loaded", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "resolution_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoUnits","i:0">>>>>>, c |-> <<<<<<<<"e:NoUnits","i:0">>>>>>, <<<<<<"e:Centimeters","i:2">>>>>>, <<<<<<"e:Inches","i:5">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRasterImageDef", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<1>>, 1, 21, FALSE, 0),
  W(4, <<10>>, 1, 21, FALSE, 0),
  W(5, <<20>>, 1, 21, FALSE, 0),
  W(6, <<11>>, 1, 21, FALSE, 0),
  W(7, <<12>>, 1, 21, FALSE, 0),
  W(8, <<280>>, 1, 21, FALSE, 0),
  W(9, <<281>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<1,3,1>>,<<10,4,1>>,<<20,5,1>>,<<11,6,1>>,<<12,7,1>>,<<280,8,1>>,<<281,9,1>>,<<330,1,1>>>>]

O_ImageDefinitionReactor ==
[key |-> "O.ImageDefinitionReactor", tstr |-> "IMAGEDEF_REACTOR", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRasterImageDefReactor", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<330,1,1>>>>]

O_LayerFilter ==
[key |-> "O.LayerFilter", tstr |-> "LAYER_FILTER", min |-> 17, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "layer_names", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:layer_names 2")>>>>, <<<<S("s:layer_names 2")>>,<<S("s:a2")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a2")>>,<<S("s:layer_names 2")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbFilter", 1, 21),
  M(100, "s:AcDbLayerFilter", 1, 21),
  W(2, <<8>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<8,2,1>>,<<330,1,1>>>>]

O_LayerIndex ==
[key |-> "O.LayerIndex", tstr |-> "LAYER_INDEX", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 4,
 fields |-> OCommon \o <<
  [n |-> "time_stamp", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"d:2000-01-01T00:00:00Z","*">>>>>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>>>, <<<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<<<<<"d:1970-01-01T00:00:01Z","*">>>>>>>>],
  [n |-> "layer_names", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:layer_names 3")>>>>, <<<<S("s:layer_names 3")>>,<<S("s:a3")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a3")>>,<<S("s:layer_names 3")>>>>>>],
  [n |-> "__id_buffers_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A04","s:A04">>>>>>, <<<<<<"h:A04","s:A04">>>>,<<<<"h:FFFFFB","s:FFFFFB">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFB","s:FFFFFB">>>>,<<<<"h:A04","s:A04">>>>>>>>],
  [n |-> "id_buffer_counts", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:51")>>,<<S("i:-52")>>,<<S("i:2147483642")>>>>, <<>>, <<<<S("i:-52")>>,<<S("i:51")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbIndex", 1, 21),
  W(2, <<40>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbLayerIndex", 1, 21),
  W(3, <<8>>, 1, 21, FALSE, 0),
  W(4, <<360>>, 1, 21, FALSE, 0),
  W(5, <<90>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<40,2,1>>,<<8,3,1>>,<<360,4,1>>,<<90,5,1>>,<<330,1,1>>>>]

O_Layout ==
[key |-> "O.Layout", tstr |-> "LAYOUT", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 30,
 fields |-> OCommon \o <<
  [n |-> "layout_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:layout_name 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "layout_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:32764")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32765")>>>>>>],
  [n |-> "tab_order", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:41")>>>>, <<<<S("i:-42")>>>>, <<<<S("i:32763")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32764")>>>>>>],
  [n |-> "minimum_limits", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25"),S("f:211.25")>>>>, <<<<S("f:-202.5"),S("f:-212.5")>>>>, <<<<S("f:200003.125"),S("f:210003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "maximum_limits", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25"),S("f:251.25")>>>>, <<<<S("f:-242.5"),S("f:-252.5")>>>>, <<<<S("f:240003.125"),S("f:250003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "insertion_base_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25"),S("f:291.25"),S("f:301.25")>>>>, <<<<S("f:-282.5"),S("f:-292.5"),S("f:-302.5")>>>>, <<<<S("f:280003.125"),S("f:290003.125"),S("f:300003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "minimum_extents", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:321.25"),S("f:331.25"),S("f:341.25")>>>>, <<<<S("f:-322.5"),S("f:-332.5"),S("f:-342.5")>>>>, <<<<S("f:320003.125"),S("f:330003.125"),S("f:340003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "maximum_extents", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:361.25"),S("f:371.25"),S("f:381.25")>>>>, <<<<S("f:-362.5"),S("f:-372.5"),S("f:-382.5")>>>>, <<<<S("f:360003.125"),S("f:370003.125"),S("f:380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "ucs_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:441.25"),S("f:451.25"),S("f:461.25")>>>>, <<<<S("f:-442.5"),S("f:-452.5"),S("f:-462.5")>>>>, <<<<S("f:440003.125"),S("f:450003.125"),S("f:460003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_x_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:481.25"),S("f:491.25"),S("f:501.25")>>>>, <<<<S("f:-482.5"),S("f:-492.5"),S("f:-502.5")>>>>, <<<<S("f:480003.125"),S("f:490003.125"),S("f:500003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_y_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:521.25"),S("f:531.25"),S("f:541.25")>>>>, <<<<S("f:-522.5"),S("f:-532.5"),S("f:-542.5")>>>>, <<<<S("f:520003.125"),S("f:530003.125"),S("f:540003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_orthographic_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NotOrthographic","i:0">>>>>>, c |-> <<<<<<<<"e:NotOrthographic","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "__viewport_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A0F","s:A0F">>>>>>, <<<<<<"h:FFFFF0","s:FFFFF0">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__table_record_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A10","s:A10">>>>>>, <<<<<<"h:FFFFEF","s:FFFFEF">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__table_record_base_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A11","s:A11">>>>>>, <<<<<<"h:FFFFEE","s:FFFFEE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbLayout", 1, 21),
  W(2, <<1>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0),
  W(4, <<71>>, 1, 21, FALSE, 0),
  W(5, <<10,20>>, 1, 21, FALSE, 0),
  W(6, <<11,21>>, 1, 21, FALSE, 0),
  W(7, <<12,22,32>>, 1, 21, FALSE, 0),
  W(8, <<14,24,34>>, 1, 21, FALSE, 0),
  W(9, <<15,25,35>>, 1, 21, FALSE, 0),
  W(10, <<146>>, 1, 21, FALSE, 0),
  W(11, <<13,23,33>>, 1, 21, FALSE, 0),
  W(12, <<16,26,36>>, 1, 21, FALSE, 0),
  W(13, <<17,27,37>>, 1, 21, FALSE, 0),
  W(14, <<76>>, 1, 21, FALSE, 0),
  W(15, <<330>>, 1, 21, FALSE, 0),
  W(16, <<345>>, 1, 21, FALSE, 0),
  W(17, <<346>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<1,2,1>>,<<70,3,1>>,<<71,4,1>>,<<10,5,1>>,<<20,5,2>>,<<11,6,1>>,<<21,6,2>>,<<12,7,1>>,<<22,7,2>>,<<32,7,3>>,<<14,8,1>>,<<24,8,2>>,<<34,8,3>>,<<15,9,1>>,<<25,9,2>>,<<35,9,3>>,<<146,10,1>>,<<13,11,1>>,<<23,11,2>>,<<33,11,3>>,<<16,12,1>>,<<26,12,2>>,<<36,12,3>>,<<17,13,1>>,<<27,13,2>>,<<37,13,3>>,<<76,14,1>>,<<330,15,1>>,<<345,16,1>>,<<346,17,1>>,<<330,1,1>>>>]

O_LightList ==
[key |-> "O.LightList", tstr |-> "LIGHTLIST", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "__lights_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A03","s:A03">>>>>>, <<<<<<"h:A03","s:A03">>>>,<<<<"h:FFFFFC","s:FFFFFC">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFC","s:FFFFFC">>>>,<<<<"h:A03","s:A03">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbLightList", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  N(90, 3, "i", 1, 21),
  X(3, <<<<5,1,1,"">>,<<1,0,1,"s:">>>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<5,3,1>>,<<330,1,1>>>>]

O_Material ==
[key |-> "O.Material", tstr |-> "MATERIAL", min |-> 17, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 182,
 fields |-> OCommon \o <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:name 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "override_ambient_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "ambient_color_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:51.25")>>>>, <<<<S("f:-52.5")>>>>, <<<<S("f:50003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0498046875")>>>>>>],
  [n |-> "ambient_color_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:61")>>>>, <<<<S("i:-62")>>>>, <<<<S("i:2147483641")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483642")>>>>>>],
  [n |-> "override_diffuse_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "diffuse_color_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "diffuse_color_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:91")>>>>, <<<<S("i:-92")>>>>, <<<<S("i:2147483638")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483639")>>>>>>],
  [n |-> "diffuse_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "use_image_file_for_diffuse_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "diffuse_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:diffuse_map_fi 12")>>>>, <<<<S("s:a12")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 12 c")>>>>>>],
  [n |-> "diffuse_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "diffuse_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "diffuse_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "diffuse_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:641.25"),S("f:651.25"),S("f:661.25"),S("f:671.25"),S("f:681.25"),S("f:691.25"),S("f:701.25"),S("f:711.25"),S("f:721.25"),S("f:731.25"),S("f:741.25"),S("f:751.25"),S("f:761.25"),S("f:771.25"),S("f:781.25"),S("f:791.25")>>>>, <<<<S("f:-642.5"),S("f:-652.5"),S("f:-662.5"),S("f:-672.5"),S("f:-682.5"),S("f:-692.5"),S("f:-702.5"),S("f:-712.5"),S("f:-722.5"),S("f:-732.5"),S("f:-742.5"),S("f:-752.5"),S("f:-762.5"),S("f:-772.5"),S("f:-782.5"),S("f:-792.5")>>>>, <<<<S("f:640003.125"),S("f:650003.125"),S("f:660003.125"),S("f:670003.125"),S("f:680003.125"),S("f:690003.125"),S("f:700003.125"),S("f:710003.125"),S("f:720003.125"),S("f:730003.125"),S("f:740003.125"),S("f:750003.125"),S("f:760003.125"),S("f:770003.125"),S("f:780003.125"),S("f:790003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__diffuse_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:171.25")>>>>, <<<<S("f:171.25")>>,<<S("f:-172.5")>>,<<S("f:170003.125")>>>>, <<>>, <<<<S("f:-172.5")>>,<<S("f:171.25")>>>>>>],
  [n |-> "specular_gloss_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.5")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "override_specular_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "specular_color_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "specular_color_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:211")>>>>, <<<<S("i:-212")>>>>, <<<<S("i:2147483626")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483627")>>>>>>],
  [n |-> "specular_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "use_image_file_for_specular_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "specular_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:specular_map_f 24")>>>>, <<<<S("s:a24")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 24 c")>>>>>>],
  [n |-> "specular_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "specular_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "specular_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "specular_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1121.25"),S("f:1131.25"),S("f:1141.25"),S("f:1151.25"),S("f:1161.25"),S("f:1171.25"),S("f:1181.25"),S("f:1191.25"),S("f:1201.25"),S("f:1211.25"),S("f:1221.25"),S("f:1231.25"),S("f:1241.25"),S("f:1251.25"),S("f:1261.25"),S("f:1271.25")>>>>, <<<<S("f:-1122.5"),S("f:-1132.5"),S("f:-1142.5"),S("f:-1152.5"),S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5"),S("f:-1192.5"),S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5"),S("f:-1232.5"),S("f:-1242.5"),S("f:-1252.5"),S("f:-1262.5"),S("f:-1272.5")>>>>, <<<<S("f:1120003.125"),S("f:1130003.125"),S("f:1140003.125"),S("f:1150003.125"),S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125"),S("f:1190003.125"),S("f:1200003.125"),S("f:1210003.125"),S("f:1220003.125"),S("f:1230003.125"),S("f:1240003.125"),S("f:1250003.125"),S("f:1260003.125"),S("f:1270003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__specular_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "reflection_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "use_image_file_for_reflection_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "reflection_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:reflection_map 32")>>>>, <<<<S("s:a32")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 32 c")>>>>>>],
  [n |-> "reflection_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "reflection_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "reflection_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "reflection_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25"),S("f:1471.25"),S("f:1481.25"),S("f:1491.25"),S("f:1501.25"),S("f:1511.25"),S("f:1521.25"),S("f:1531.25"),S("f:1541.25"),S("f:1551.25"),S("f:1561.25"),S("f:1571.25"),S("f:1581.25"),S("f:1591.25")>>>>, <<<<S("f:-1442.5"),S("f:-1452.5"),S("f:-1462.5"),S("f:-1472.5"),S("f:-1482.5"),S("f:-1492.5"),S("f:-1502.5"),S("f:-1512.5"),S("f:-1522.5"),S("f:-1532.5"),S("f:-1542.5"),S("f:-1552.5"),S("f:-1562.5"),S("f:-1572.5"),S("f:-1582.5"),S("f:-1592.5")>>>>, <<<<S("f:1440003.125"),S("f:1450003.125"),S("f:1460003.125"),S("f:1470003.125"),S("f:1480003.125"),S("f:1490003.125"),S("f:1500003.125"),S("f:1510003.125"),S("f:1520003.125"),S("f:1530003.125"),S("f:1540003.125"),S("f:1550003.125"),S("f:1560003.125"),S("f:1570003.125"),S("f:1580003.125"),S("f:1590003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__reflection_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:371.25")>>>>, <<<<S("f:371.25")>>,<<S("f:-372.5")>>,<<S("f:370003.125")>>>>, <<>>, <<<<S("f:-372.5")>>,<<S("f:371.25")>>>>>>],
  [n |-> "opacity_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:381.25")>>>>, <<<<S("f:-382.5")>>>>, <<<<S("f:380003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3720703125")>>>>>>],
  [n |-> "opacity_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:391.25")>>>>, <<<<S("f:-392.5")>>>>, <<<<S("f:390003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3818359375")>>>>>>],
  [n |-> "use_image_file_for_opacity_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "opacity_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:opacity_map_fi 41")>>>>, <<<<S("s:a41")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 41 c")>>>>>>],
  [n |-> "opacity_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "opacity_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "opacity_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "opacity_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1801.25"),S("f:1811.25"),S("f:1821.25"),S("f:1831.25"),S("f:1841.25"),S("f:1851.25"),S("f:1861.25"),S("f:1871.25"),S("f:1881.25"),S("f:1891.25"),S("f:1901.25"),S("f:1911.25"),S("f:1921.25"),S("f:1931.25"),S("f:1941.25"),S("f:1951.25")>>>>, <<<<S("f:-1802.5"),S("f:-1812.5"),S("f:-1822.5"),S("f:-1832.5"),S("f:-1842.5"),S("f:-1852.5"),S("f:-1862.5"),S("f:-1872.5"),S("f:-1882.5"),S("f:-1892.5"),S("f:-1902.5"),S("f:-1912.5"),S("f:-1922.5"),S("f:-1932.5"),S("f:-1942.5"),S("f:-1952.5")>>>>, <<<<S("f:1800003.125"),S("f:1810003.125"),S("f:1820003.125"),S("f:1830003.125"),S("f:1840003.125"),S("f:1850003.125"),S("f:1860003.125"),S("f:1870003.125"),S("f:1880003.125"),S("f:1890003.125"),S("f:1900003.125"),S("f:1910003.125"),S("f:1920003.125"),S("f:1930003.125"),S("f:1940003.125"),S("f:1950003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__opacity_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:461.25")>>>>, <<<<S("f:461.25")>>,<<S("f:-462.5")>>,<<S("f:460003.125")>>>>, <<>>, <<<<S("f:-462.5")>>,<<S("f:461.25")>>>>>>],
  [n |-> "bump_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:471.25")>>>>, <<<<S("f:-472.5")>>>>, <<<<S("f:470003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4599609375")>>>>>>],
  [n |-> "use_image_file_for_bump_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "bump_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:bump_map_file_ 49")>>>>, <<<<S("s:a49")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 49 c")>>>>>>],
  [n |-> "bump_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "bump_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "bump_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "bump_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:2121.25"),S("f:2131.25"),S("f:2141.25"),S("f:2151.25"),S("f:2161.25"),S("f:2171.25"),S("f:2181.25"),S("f:2191.25"),S("f:2201.25"),S("f:2211.25"),S("f:2221.25"),S("f:2231.25"),S("f:2241.25"),S("f:2251.25"),S("f:2261.25"),S("f:2271.25")>>>>, <<<<S("f:-2122.5"),S("f:-2132.5"),S("f:-2142.5"),S("f:-2152.5"),S("f:-2162.5"),S("f:-2172.5"),S("f:-2182.5"),S("f:-2192.5"),S("f:-2202.5"),S("f:-2212.5"),S("f:-2222.5"),S("f:-2232.5"),S("f:-2242.5"),S("f:-2252.5"),S("f:-2262.5"),S("f:-2272.5")>>>>, <<<<S("f:2120003.125"),S("f:2130003.125"),S("f:2140003.125"),S("f:2150003.125"),S("f:2160003.125"),S("f:2170003.125"),S("f:2180003.125"),S("f:2190003.125"),S("f:2200003.125"),S("f:2210003.125"),S("f:2220003.125"),S("f:2230003.125"),S("f:2240003.125"),S("f:2250003.125"),S("f:2260003.125"),S("f:2270003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__bump_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:541.25")>>>>, <<<<S("f:541.25")>>,<<S("f:-542.5")>>,<<S("f:540003.125")>>>>, <<>>, <<<<S("f:-542.5")>>,<<S("f:541.25")>>>>>>],
  [n |-> "refraction_index", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:551.25")>>>>, <<<<S("f:-552.5")>>>>, <<<<S("f:550003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.5380859375")>>>>>>],
  [n |-> "refraction_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:561.25")>>>>, <<<<S("f:-562.5")>>>>, <<<<S("f:560003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.5478515625")>>>>>>],
  [n |-> "use_image_file_for_refraction_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "refraction_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:refraction_map 58")>>>>, <<<<S("s:a58")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 58 c")>>>>>>],
  [n |-> "refraction_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "refraction_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "refraction_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "refraction_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:2481.25"),S("f:2491.25"),S("f:2501.25"),S("f:2511.25"),S("f:2521.25"),S("f:2531.25"),S("f:2541.25"),S("f:2551.25"),S("f:2561.25"),S("f:2571.25"),S("f:2581.25"),S("f:2591.25"),S("f:2601.25"),S("f:2611.25"),S("f:2621.25"),S("f:2631.25")>>>>, <<<<S("f:-2482.5"),S("f:-2492.5"),S("f:-2502.5"),S("f:-2512.5"),S("f:-2522.5"),S("f:-2532.5"),S("f:-2542.5"),S("f:-2552.5"),S("f:-2562.5"),S("f:-2572.5"),S("f:-2582.5"),S("f:-2592.5"),S("f:-2602.5"),S("f:-2612.5"),S("f:-2622.5"),S("f:-2632.5")>>>>, <<<<S("f:2480003.125"),S("f:2490003.125"),S("f:2500003.125"),S("f:2510003.125"),S("f:2520003.125"),S("f:2530003.125"),S("f:2540003.125"),S("f:2550003.125"),S("f:2560003.125"),S("f:2570003.125"),S("f:2580003.125"),S("f:2590003.125"),S("f:2600003.125"),S("f:2610003.125"),S("f:2620003.125"),S("f:2630003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__refraction_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:631.25")>>>>, <<<<S("f:631.25")>>,<<S("f:-632.5")>>,<<S("f:630003.125")>>>>, <<>>, <<<<S("f:-632.5")>>,<<S("f:631.25")>>>>>>],
  [n |-> "color_bleed_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:641.25")>>>>, <<<<S("f:-642.5")>>>>, <<<<S("f:640003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6259765625")>>>>>>],
  [n |-> "indirect_dump_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:651.25")>>>>, <<<<S("f:-652.5")>>>>, <<<<S("f:650003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6357421875")>>>>>>],
  [n |-> "reflectance_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:661.25")>>>>, <<<<S("f:-662.5")>>>>, <<<<S("f:660003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6455078125")>>>>>>],
  [n |-> "transmittance_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:671.25")>>>>, <<<<S("f:-672.5")>>>>, <<<<S("f:670003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6552734375")>>>>>>],
  [n |-> "is_two_sided", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "luminance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:691.25")>>>>, <<<<S("f:-692.5")>>>>, <<<<S("f:690003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6748046875")>>>>>>],
  [n |-> "luminance_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:701")>>>>, <<<<S("i:-702")>>>>, <<<<S("i:32697")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32698")>>>>>>],
  [n |-> "normal_map_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:711")>>>>, <<<<S("i:-712")>>>>, <<<<S("i:32696")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32697")>>>>>>],
  [n |-> "normal_map_strength", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:721.25")>>>>, <<<<S("f:-722.5")>>>>, <<<<S("f:720003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.7041015625")>>>>>>],
  [n |-> "normal_map_blend_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:731.25")>>>>, <<<<S("f:-732.5")>>>>, <<<<S("f:730003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.7138671875")>>>>>>],
  [n |-> "use_image_file_for_normal_map", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "normal_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:normal_map_fil 75")>>>>, <<<<S("s:a75")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 75 c")>>>>>>],
  [n |-> "normal_map_projection_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Planar","i:1">>>>>>, c |-> <<<<<<<<"e:Planar","i:1">>>>>>, <<<<<<"e:Box","i:2">>>>>>, <<<<<<"e:Cylinder","i:3">>>>>>, <<<<<<"e:Sphere","i:4">>>>>>>>],
  [n |-> "normal_map_tiling_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Tile","i:1">>>>>>, c |-> <<<<<<<<"e:Tile","i:1">>>>>>, <<<<<<"e:Crop","i:2">>>>>>, <<<<<<"e:Clamp","i:3">>>>>>>>],
  [n |-> "normal_map_auto_transform_method", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAutoTransform","i:1">>>>>>, c |-> <<<<<<<<"e:NoAutoTransform","i:1">>>>>>, <<<<<<"e:ScaleToCurrentEntity","i:2">>>>>>, <<<<<<"e:IncludeCurrentBlockTransform","i:4">>>>>>>>],
  [n |-> "normal_map_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:3161.25"),S("f:3171.25"),S("f:3181.25"),S("f:3191.25"),S("f:3201.25"),S("f:3211.25"),S("f:3221.25"),S("f:3231.25"),S("f:3241.25"),S("f:3251.25"),S("f:3261.25"),S("f:3271.25"),S("f:3281.25"),S("f:3291.25"),S("f:3301.25"),S("f:3311.25")>>>>, <<<<S("f:-3162.5"),S("f:-3172.5"),S("f:-3182.5"),S("f:-3192.5"),S("f:-3202.5"),S("f:-3212.5"),S("f:-3222.5"),S("f:-3232.5"),S("f:-3242.5"),S("f:-3252.5"),S("f:-3262.5"),S("f:-3272.5"),S("f:-3282.5"),S("f:-3292.5"),S("f:-3302.5"),S("f:-3312.5")>>>>, <<<<S("f:3160003.125"),S("f:3170003.125"),S("f:3180003.125"),S("f:3190003.125"),S("f:3200003.125"),S("f:3210003.125"),S("f:3220003.125"),S("f:3230003.125"),S("f:3240003.125"),S("f:3250003.125"),S("f:3260003.125"),S("f:3270003.125"),S("f:3280003.125"),S("f:3290003.125"),S("f:3300003.125"),S("f:3310003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__normal_map_transformation_matrix_values", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:801.25")>>>>, <<<<S("f:801.25")>>,<<S("f:-802.5")>>,<<S("f:800003.125")>>>>, <<>>, <<<<S("f:-802.5")>>,<<S("f:801.25")>>>>>>],
  [n |-> "is_anonymous", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "global_illumination_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:821")>>>>, <<<<S("i:-822")>>>>, <<<<S("i:32685")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32686")>>>>>>],
  [n |-> "final_gather_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:831")>>>>, <<<<S("i:-832")>>>>, <<<<S("i:32684")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32685")>>>>>>],
  [n |-> "gen_proc_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:gen_proc_name 84")>>>>, <<<<S("s:a84")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 84 c")>>>>>>],
  [n |-> "gen_proc_boolean_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "gen_proc_integer_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:861")>>>>, <<<<S("i:-862")>>>>, <<<<S("i:32681")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32682")>>>>>>],
  [n |-> "gen_proc_real_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:871.25")>>>>, <<<<S("f:-872.5")>>>>, <<<<S("f:870003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.8505859375")>>>>>>],
  [n |-> "gen_proc_text_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:gen_proc_text_ 88")>>>>, <<<<S("s:a88")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 88 c")>>>>>>],
  [n |-> "gen_proc_table_end", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "gen_proc_color_index_value", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:256")>>>>, c |-> <<<<<<S("i:91")>>>>, <<<<S("i:256")>>>>, <<<<S("i:141")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "gen_proc_color_rgb_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:911")>>>>, <<<<S("i:-912")>>>>, <<<<S("i:2147483556")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483557")>>>>>>],
  [n |-> "gen_proc_color_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:gen_proc_color 92")>>>>, <<<<S("s:a92")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 92 c")>>>>>>],
  [n |-> "map_u_tile", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:931")>>>>, <<<<S("i:-932")>>>>, <<<<S("i:32674")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32675")>>>>>>],
  [n |-> "map_v_tile", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:941")>>>>, <<<<S("i:-942")>>>>, <<<<S("i:32673")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32674")>>>>>>],
  [n |-> "translucence", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:951.25")>>>>, <<<<S("f:-952.5")>>>>, <<<<S("f:950003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.9287109375")>>>>>>],
  [n |-> "self_illumination", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:961")>>>>, <<<<S("i:-962")>>>>, <<<<S("i:2147483551")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483552")>>>>>>],
  [n |-> "reflectivity", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:971.25")>>>>, <<<<S("f:-972.5")>>>>, <<<<S("f:970003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.9482421875")>>>>>>],
  [n |-> "illumination_model", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:981")>>>>, <<<<S("i:-982")>>>>, <<<<S("i:2147483549")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483550")>>>>>>],
  [n |-> "channel_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:991")>>>>, <<<<S("i:-992")>>>>, <<<<S("i:2147483548")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483549")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  W(2, <<1>>, 1, 21, FALSE, 0),
  W(3, <<2>>, 1, 21, FALSE, 0),
  W(4, <<70>>, 1, 21, FALSE, 0),
  W(5, <<40>>, 1, 21, FALSE, 0),
  W(6, <<90>>, 1, 21, FALSE, 0),
  W(7, <<71>>, 1, 21, FALSE, 0),
  W(8, <<41>>, 1, 21, FALSE, 0),
  W(9, <<91>>, 1, 21, FALSE, 0),
  W(10, <<42>>, 1, 21, FALSE, 0),
  W(11, <<72>>, 1, 21, FALSE, 0),
  W(12, <<3>>, 1, 21, FALSE, 0),
  W(13, <<73>>, 1, 21, FALSE, 0),
  W(14, <<74>>, 1, 21, FALSE, 0),
  W(15, <<75>>, 1, 21, FALSE, 0),
  W(16, <<43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43>>, 1, 21, FALSE, 0),
  W(18, <<44>>, 1, 21, FALSE, 0),
  W(19, <<76>>, 1, 21, FALSE, 0),
  W(20, <<45>>, 1, 21, FALSE, 0),
  W(21, <<92>>, 1, 21, FALSE, 0),
  W(22, <<46>>, 1, 21, FALSE, 0),
  W(23, <<77>>, 1, 21, FALSE, 0),
  W(24, <<4>>, 1, 21, FALSE, 0),
  W(25, <<78>>, 1, 21, FALSE, 0),
  W(26, <<79>>, 1, 21, FALSE, 0),
  W(27, <<170>>, 1, 21, FALSE, 0),
  W(28, <<47,47,47,47,47,47,47,47,47,47,47,47,47,47,47,47>>, 1, 21, FALSE, 0),
  W(30, <<48>>, 1, 21, FALSE, 0),
  W(31, <<171>>, 1, 21, FALSE, 0),
  W(32, <<6>>, 1, 21, FALSE, 0),
  W(33, <<172>>, 1, 21, FALSE, 0),
  W(34, <<173>>, 1, 21, FALSE, 0),
  W(35, <<174>>, 1, 21, FALSE, 0),
  W(36, <<49,49,49,49,49,49,49,49,49,49,49,49,49,49,49,49>>, 1, 21, FALSE, 0),
  W(38, <<140>>, 1, 21, FALSE, 0),
  W(39, <<141>>, 1, 21, FALSE, 0),
  W(40, <<175>>, 1, 21, FALSE, 0),
  W(41, <<7>>, 1, 21, FALSE, 0),
  W(42, <<176>>, 1, 21, FALSE, 0),
  W(43, <<177>>, 1, 21, FALSE, 0),
  W(44, <<178>>, 1, 21, FALSE, 0),
  W(45, <<142,142,142,142,142,142,142,142,142,142,142,142,142,142,142,142>>, 1, 21, FALSE, 0),
  W(47, <<143>>, 1, 21, FALSE, 0),
  W(48, <<179>>, 1, 21, FALSE, 0),
  W(49, <<8>>, 1, 21, FALSE, 0),
  W(50, <<270>>, 1, 21, FALSE, 0),
  W(51, <<271>>, 1, 21, FALSE, 0),
  W(52, <<272>>, 1, 21, FALSE, 0),
  W(53, <<144,144,144,144,144,144,144,144,144,144,144,144,144,144,144,144>>, 1, 21, FALSE, 0),
  W(55, <<145>>, 1, 21, FALSE, 0),
  W(56, <<146>>, 1, 21, FALSE, 0),
  W(57, <<273>>, 1, 21, FALSE, 0),
  W(58, <<9>>, 1, 21, FALSE, 0),
  W(59, <<274>>, 1, 21, FALSE, 0),
  W(60, <<275>>, 1, 21, FALSE, 0),
  W(61, <<276>>, 1, 21, FALSE, 0),
  W(62, <<147,147,147,147,147,147,147,147,147,147,147,147,147,147,147,147>>, 1, 21, FALSE, 0),
  W(64, <<460>>, 18, 21, FALSE, 0),
  W(65, <<461>>, 18, 21, FALSE, 0),
  W(66, <<462>>, 18, 21, FALSE, 0),
  W(67, <<463>>, 18, 21, FALSE, 0),
  W(68, <<290>>, 18, 21, FALSE, 0),
  W(69, <<464>>, 18, 21, FALSE, 0),
  W(70, <<270>>, 18, 21, FALSE, 0),
  W(71, <<271>>, 18, 21, FALSE, 0),
  W(72, <<465>>, 18, 21, FALSE, 0),
  W(73, <<42>>, 18, 21, FALSE, 0),
  W(74, <<72>>, 18, 21, FALSE, 0),
  W(75, <<3>>, 18, 21, FALSE, 0),
  W(76, <<73>>, 18, 21, FALSE, 0),
  W(77, <<74>>, 18, 21, FALSE, 0),
  W(78, <<75>>, 18, 21, FALSE, 0),
  W(79, <<43,43,43,43,43,43,43,43,43,43,43,43,43,43,43,43>>, 18, 21, FALSE, 0),
  W(81, <<293>>, 18, 21, FALSE, 0),
  W(82, <<272>>, 18, 21, FALSE, 0),
  W(83, <<273>>, 18, 21, FALSE, 0),
  W(84, <<300>>, 18, 21, FALSE, 0),
  W(85, <<291>>, 18, 21, FALSE, 0),
  W(86, <<271>>, 18, 21, FALSE, 0),
  W(87, <<469>>, 18, 21, FALSE, 0),
  W(88, <<301>>, 18, 21, FALSE, 0),
  W(89, <<292>>, 18, 21, FALSE, 0),
  W(90, <<62>>, 18, 21, FALSE, 0),
  W(91, <<420>>, 18, 21, FALSE, 0),
  W(92, <<430>>, 18, 21, FALSE, 0),
  W(93, <<270>>, 18, 21, FALSE, 0),
  W(94, <<271>>, 18, 21, FALSE, 0),
  W(95, <<148>>, 19, 21, FALSE, 0),
  W(96, <<90>>, 19, 21, FALSE, 0),
  W(97, <<468>>, 19, 21, FALSE, 0),
  W(98, <<93>>, 19, 21, FALSE, 0),
  W(99, <<94>>, 19, 21, FALSE, 0)>>,
 rd |-> <<<<1,2,1>>,<<2,3,1>>,<<70,4,1>>,<<40,5,1>>,<<90,6,1>>,<<71,7,1>>,<<41,8,1>>,<<91,9,1>>,<<42,10,1>>,<<72,11,1>>,<<3,12,1>>,<<73,13,1>>,<<74,14,1>>,<<75,15,1>>,<<43,16,1>>,<<43,16,2>>,<<43,16,3>>,<<43,16,4>>,<<43,16,5>>,<<43,16,6>>,<<43,16,7>>,<<43,16,8>>,<<43,16,9>>,<<43,16,10>>,<<43,16,11>>,<<43,16,12>>,<<43,16,13>>,<<43,16,14>>,<<43,16,15>>,<<43,16,16>>,<<44,18,1>>,<<76,19,1>>,<<45,20,1>>,<<92,21,1>>,<<46,22,1>>,<<77,23,1>>,<<4,24,1>>,<<78,25,1>>,<<79,26,1>>,<<170,27,1>>,<<47,28,1>>,<<47,28,2>>,<<47,28,3>>,<<47,28,4>>,<<47,28,5>>,<<47,28,6>>,<<47,28,7>>,<<47,28,8>>,<<47,28,9>>,<<47,28,10>>,<<47,28,11>>,<<47,28,12>>,<<47,28,13>>,<<47,28,14>>,<<47,28,15>>,<<47,28,16>>,<<48,30,1>>,<<171,31,1>>,<<6,32,1>>,<<172,33,1>>,<<173,34,1>>,<<174,35,1>>,<<49,36,1>>,<<49,36,2>>,<<49,36,3>>,<<49,36,4>>,<<49,36,5>>,<<49,36,6>>,<<49,36,7>>,<<49,36,8>>,<<49,36,9>>,<<49,36,10>>,<<49,36,11>>,<<49,36,12>>,<<49,36,13>>,<<49,36,14>>,<<49,36,15>>,<<49,36,16>>,<<140,38,1>>,<<141,39,1>>,<<175,40,1>>,<<7,41,1>>,<<176,42,1>>,<<177,43,1>>,<<178,44,1>>,<<142,45,1>>,<<142,45,2>>,<<142,45,3>>,<<142,45,4>>,<<142,45,5>>,<<142,45,6>>,<<142,45,7>>,<<142,45,8>>,<<142,45,9>>,<<142,45,10>>,<<142,45,11>>,<<142,45,12>>,<<142,45,13>>,<<142,45,14>>,<<142,45,15>>,<<142,45,16>>,<<143,47,1>>,<<179,48,1>>,<<8,49,1>>,<<270,50,1>>,<<271,51,1>>,<<272,52,1>>,<<144,53,1>>,<<144,53,2>>,<<144,53,3>>,<<144,53,4>>,<<144,53,5>>,<<144,53,6>>,<<144,53,7>>,<<144,53,8>>,<<144,53,9>>,<<144,53,10>>,<<144,53,11>>,<<144,53,12>>,<<144,53,13>>,<<144,53,14>>,<<144,53,15>>,<<144,53,16>>,<<145,55,1>>,<<146,56,1>>,<<273,57,1>>,<<9,58,1>>,<<274,59,1>>,<<275,60,1>>,<<276,61,1>>,<<147,62,1>>,<<147,62,2>>,<<147,62,3>>,<<147,62,4>>,<<147,62,5>>,<<147,62,6>>,<<147,62,7>>,<<147,62,8>>,<<147,62,9>>,<<147,62,10>>,<<147,62,11>>,<<147,62,12>>,<<147,62,13>>,<<147,62,14>>,<<147,62,15>>,<<147,62,16>>,<<460,64,1>>,<<461,65,1>>,<<462,66,1>>,<<463,67,1>>,<<290,68,1>>,<<464,69,1>>,<<465,72,1>>,<<43,79,1>>,<<43,79,2>>,<<43,79,3>>,<<43,79,4>>,<<43,79,5>>,<<43,79,6>>,<<43,79,7>>,<<43,79,8>>,<<43,79,9>>,<<43,79,10>>,<<43,79,11>>,<<43,79,12>>,<<43,79,13>>,<<43,79,14>>,<<43,79,15>>,<<43,79,16>>,<<293,81,1>>,<<300,84,1>>,<<291,85,1>>,<<469,87,1>>,<<301,88,1>>,<<292,89,1>>,<<62,90,1>>,<<420,91,1>>,<<430,92,1>>,<<148,95,1>>,<<468,97,1>>,<<93,98,1>>,<<94,99,1>>,<<330,1,1>>>>]

O_MLeaderStyle ==
[key |-> "O.MLeaderStyle", tstr |-> "MLEADERSTYLE", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 44,
 fields |-> OCommon \o <<
  [n |-> "content_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:32765")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32766")>>>>>>],
  [n |-> "draw_m_leader_order_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:32764")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32765")>>>>>>],
  [n |-> "draw_leader_order_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:41")>>>>, <<<<S("i:-42")>>>>, <<<<S("i:32763")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32764")>>>>>>],
  [n |-> "max_leader_segment_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:-52")>>>>, <<<<S("i:2147483642")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483643")>>>>>>],
  [n |-> "first_segment_angle_constraint", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "second_segment_angle_constraint", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "leader_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:81")>>>>, <<<<S("i:-82")>>>>, <<<<S("i:32759")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32760")>>>>>>],
  [n |-> "leader_line_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:91")>>>>, <<<<S("i:-92")>>>>, <<<<S("i:2147483638")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483639")>>>>>>],
  [n |-> "__line_leader_type_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A0A","s:A0A">>>>>>, <<<<<<"h:FFFFF5","s:FFFFF5">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "leader_line_weight", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:111")>>>>, <<<<S("i:-112")>>>>, <<<<S("i:2147483636")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483637")>>>>>>],
  [n |-> "enable_landing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "landing_gap", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:131.25")>>>>, <<<<S("f:-132.5")>>>>, <<<<S("f:130003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1279296875")>>>>>>],
  [n |-> "enable_dogleg", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dogleg_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:151.25")>>>>, <<<<S("f:-152.5")>>>>, <<<<S("f:150003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1474609375")>>>>>>],
  [n |-> "m_leader_style_description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:m_leader_style 16")>>>>, <<<<S("s:a16")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 16 c")>>>>>>],
  [n |-> "__arrowhead_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A11","s:A11">>>>>>, <<<<<<"h:FFFFEE","s:FFFFEE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "arrowhead_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "default_m_text_contents", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:default_m_text 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "__m_text_style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A14","s:A14">>>>>>, <<<<<<"h:FFFFEB","s:FFFFEB">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "text_left_attachment_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:211")>>>>, <<<<S("i:-212")>>>>, <<<<S("i:32746")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32747")>>>>>>],
  [n |-> "text_angle_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>],
  [n |-> "text_alignment_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:32744")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32745")>>>>>>],
  [n |-> "text_right_attachment_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "text_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:2147483622")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483623")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:261.25")>>>>, <<<<S("f:-262.5")>>>>, <<<<S("f:260003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2548828125")>>>>>>],
  [n |-> "enable_frame_text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "always_align_text_left", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "align_gap", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "__block_content_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A1E","s:A1E">>>>>>, <<<<<<"h:FFFFE1","s:FFFFE1">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "block_content_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:311")>>>>, <<<<S("i:-312")>>>>, <<<<S("i:2147483616")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483617")>>>>>>],
  [n |-> "block_content_x_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:-322.5")>>>>, <<<<S("f:320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3134765625")>>>>>>],
  [n |-> "block_content_y_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:-332.5")>>>>, <<<<S("f:330003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3232421875")>>>>>>],
  [n |-> "block_content_z_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:341.25")>>>>, <<<<S("f:-342.5")>>>>, <<<<S("f:340003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3330078125")>>>>>>],
  [n |-> "enable_block_content_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "block_content_rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:361.25")>>>>, <<<<S("f:-362.5")>>>>, <<<<S("f:360003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3525390625")>>>>>>],
  [n |-> "enable_block_content_rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "block_content_connection_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:381")>>>>, <<<<S("i:-382")>>>>, <<<<S("i:32729")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32730")>>>>>>],
  [n |-> "scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:391.25")>>>>, <<<<S("f:-392.5")>>>>, <<<<S("f:390003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3818359375")>>>>>>],
  [n |-> "overwrite_field_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_annotative", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "break_gap_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:421.25")>>>>, <<<<S("f:-422.5")>>>>, <<<<S("f:420003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4111328125")>>>>>>],
  [n |-> "text_attachment_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Horizontal","i:0">>>>>>, c |-> <<<<<<<<"e:Horizontal","i:0">>>>>>, <<<<<<"e:Vertical","i:1">>>>>>>>],
  [n |-> "bottom_text_attachment_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Center","i:9">>>>>>, c |-> <<<<<<<<"e:Center","i:9">>>>>>, <<<<<<"e:UnderlineAndCenter","i:10">>>>>>>>],
  [n |-> "top_text_attachment_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Center","i:9">>>>>>, c |-> <<<<<<<<"e:Center","i:9">>>>>>, <<<<<<"e:OverlineAndCenter","i:10">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbMLeaderStyle", 1, 21),
  W(2, <<170>>, 1, 21, FALSE, 0),
  W(3, <<171>>, 1, 21, FALSE, 0),
  W(4, <<172>>, 1, 21, FALSE, 0),
  W(5, <<90>>, 1, 21, FALSE, 0),
  W(6, <<40>>, 1, 21, FALSE, 0),
  W(7, <<41>>, 1, 21, FALSE, 0),
  W(8, <<173>>, 1, 21, FALSE, 0),
  W(9, <<91>>, 1, 21, FALSE, 0),
  W(10, <<340>>, 1, 21, FALSE, 0),
  W(11, <<92>>, 1, 21, FALSE, 0),
  W(12, <<290>>, 1, 21, FALSE, 0),
  W(13, <<42>>, 1, 21, FALSE, 0),
  W(14, <<291>>, 1, 21, FALSE, 0),
  W(15, <<43>>, 1, 21, FALSE, 0),
  W(16, <<3>>, 1, 21, FALSE, 0),
  W(17, <<341>>, 1, 21, FALSE, 0),
  W(18, <<44>>, 1, 21, FALSE, 0),
  W(19, <<300>>, 1, 21, FALSE, 0),
  W(20, <<342>>, 1, 21, FALSE, 0),
  W(21, <<174>>, 1, 21, FALSE, 0),
  W(22, <<175>>, 1, 21, FALSE, 0),
  W(23, <<176>>, 1, 21, FALSE, 0),
  W(24, <<178>>, 1, 21, FALSE, 0),
  W(25, <<93>>, 1, 21, FALSE, 0),
  W(26, <<45>>, 1, 21, FALSE, 0),
  W(27, <<292>>, 1, 21, FALSE, 0),
  W(28, <<297>>, 1, 21, FALSE, 0),
  W(29, <<46>>, 1, 21, FALSE, 0),
  W(30, <<343>>, 1, 21, FALSE, 0),
  W(31, <<94>>, 1, 21, FALSE, 0),
  W(32, <<47>>, 1, 21, FALSE, 0),
  W(33, <<49>>, 1, 21, FALSE, 0),
  W(34, <<140>>, 1, 21, FALSE, 0),
  W(35, <<293>>, 1, 21, FALSE, 0),
  W(36, <<141>>, 1, 21, FALSE, 0),
  W(37, <<294>>, 1, 21, FALSE, 0),
  W(38, <<177>>, 1, 21, FALSE, 0),
  W(39, <<142>>, 1, 21, FALSE, 0),
  W(40, <<295>>, 1, 21, FALSE, 0),
  W(41, <<296>>, 1, 21, FALSE, 0),
  W(42, <<143>>, 1, 21, FALSE, 0),
  W(43, <<271>>, 1, 21, FALSE, 0),
  W(44, <<272>>, 1, 21, FALSE, 0),
  W(45, <<273>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<170,2,1>>,<<171,3,1>>,<<172,4,1>>,<<90,5,1>>,<<40,6,1>>,<<41,7,1>>,<<173,8,1>>,<<91,9,1>>,<<340,10,1>>,<<92,11,1>>,<<290,12,1>>,<<42,13,1>>,<<291,14,1>>,<<43,15,1>>,<<3,16,1>>,<<341,17,1>>,<<44,18,1>>,<<300,19,1>>,<<342,20,1>>,<<174,21,1>>,<<175,22,1>>,<<176,23,1>>,<<178,24,1>>,<<93,25,1>>,<<45,26,1>>,<<292,27,1>>,<<297,28,1>>,<<46,29,1>>,<<343,30,1>>,<<94,31,1>>,<<47,32,1>>,<<49,33,1>>,<<140,34,1>>,<<293,35,1>>,<<141,36,1>>,<<294,37,1>>,<<177,38,1>>,<<142,39,1>>,<<295,40,1>>,<<296,41,1>>,<<143,42,1>>,<<271,43,1>>,<<272,44,1>>,<<273,45,1>>,<<330,1,1>>>>]

O_MLineStyle ==
[key |-> "O.MLineStyle", tstr |-> "MLINESTYLE", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 9,
 fields |-> OCommon \o <<
  [n |-> "style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:style_name 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "__flags", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:32764")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32765")>>>>>>],
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "fill_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:256")>>>>, c |-> <<<<<<S("i:6")>>>>, <<<<S("i:256")>>>>, <<<<S("i:56")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "start_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:90.0")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "end_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:90.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "elements", ks |-> <<"offset","color.raw_value","line_type">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:321.25"),S("i:331"),S("s:line_type 34")>>>>, <<<<S("f:321.25"),S("i:331"),S("s:line_type 34")>>,<<S("f:-322.5"),S("i:-332"),S("s:a34")>>,<<S("f:320003.125"),S("i:32734"),S("s:")>>>>, <<>>, <<<<S("f:-322.5"),S("i:-332"),S("s:a34")>>,<<S("f:321.25"),S("i:331"),S("s:line_type 34")>>>>>>],
  [n |-> "__element_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:91")>>>>, <<<<S("i:-92")>>>>, <<<<S("i:32758")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32759")>>>>>>],
  [n |-> "__element_offsets", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:101.25")>>,<<S("f:-102.5")>>,<<S("f:100003.125")>>>>, <<>>, <<<<S("f:-102.5")>>,<<S("f:101.25")>>>>>>],
  [n |-> "__element_colors", ks |-> <<"raw_value">>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("i:12")>>>>, <<<<S("i:12")>>,<<S("i:256")>>,<<S("i:62")>>>>, <<>>, <<<<S("i:256")>>,<<S("i:12")>>>>>>],
  [n |-> "__element_line_types", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("s:__element_line 12")>>>>, <<<<S("s:__element_line 12")>>,<<S("s:a12")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a12")>>,<<S("s:__element_line 12")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbMlineStyle", 1, 21),
  W(2, <<2>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0),
  W(4, <<3>>, 1, 21, FALSE, 0),
  W(5, <<62>>, 1, 21, FALSE, 0),
  W(6, <<51>>, 1, 21, FALSE, 0),
  W(7, <<52>>, 1, 21, FALSE, 0),
  N(71, 8, "i", 1, 21),
  W(8, <<49,62,6>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<2,2,1>>,<<70,3,1>>,<<3,4,1>>,<<62,5,1>>,<<51,6,1>>,<<52,7,1>>,<<71,9,1>>,<<49,10,1>>,<<6,12,1>>,<<330,1,1>>>>]

O_ObjectPointer ==
[key |-> "O.ObjectPointer", tstr |-> "OBJECT_PTR", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 0,
 fields |-> OCommon \o <<
>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<330,1,1>>>>]

O_PlotSettings ==
[key |-> "O.PlotSettings", tstr |-> "PLOTSETTINGS", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 31,
 fields |-> OCommon \o <<
  [n |-> "page_setup_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:page_setup_nam 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "printer_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:printer_name 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "paper_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:paper_size 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "plot_view_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:plot_view_name 5")>>>>, <<<<S("s:a5")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 5 c")>>>>>>],
  [n |-> "unprintable_left_margin_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "unprintable_bottom_margin_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "unprintable_right_margin_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "unprintable_top_margin_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "paper_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "paper_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:111.25")>>>>, <<<<S("f:-112.5")>>>>, <<<<S("f:110003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1083984375")>>>>>>],
  [n |-> "plot_origin_x_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:121.25")>>>>, <<<<S("f:-122.5")>>>>, <<<<S("f:120003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1181640625")>>>>>>],
  [n |-> "plot_origin_y_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:131.25")>>>>, <<<<S("f:-132.5")>>>>, <<<<S("f:130003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1279296875")>>>>>>],
  [n |-> "plot_window_lower_left_x_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:141.25")>>>>, <<<<S("f:-142.5")>>>>, <<<<S("f:140003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1376953125")>>>>>>],
  [n |-> "plot_window_lower_left_y_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:151.25")>>>>, <<<<S("f:-152.5")>>>>, <<<<S("f:150003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1474609375")>>>>>>],
  [n |-> "plot_window_upper_right_x_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25")>>>>, <<<<S("f:-162.5")>>>>, <<<<S("f:160003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1572265625")>>>>>>],
  [n |-> "plot_window_upper_right_y_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:171.25")>>>>, <<<<S("f:-172.5")>>>>, <<<<S("f:170003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1669921875")>>>>>>],
  [n |-> "custom_print_scale_numerator", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "custom_print_scale_denominator", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "plot_layout_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:32747")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32748")>>>>>>],
  [n |-> "plot_paper_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Inches","i:0">>>>>>, c |-> <<<<<<<<"e:Inches","i:0">>>>>>, <<<<<<"e:Millimeters","i:1">>>>>>, <<<<<<"e:Pixels","i:2">>>>>>>>],
  [n |-> "plot_rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoRotation","i:0">>>>>>, c |-> <<<<<<<<"e:NoRotation","i:0">>>>>>, <<<<<<"e:CounterClockwise90Degrees","i:1">>>>>>, <<<<<<"e:UpsideDown","i:2">>>>>>, <<<<<<"e:Clockwise90Degrees","i:3">>>>>>>>],
  [n |-> "plot_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DrawingExtents","i:1">>>>>>, c |-> <<<<<<<<"e:LastScreenDisplay","i:0">>>>>>, <<<<<<"e:DrawingExtents","i:1">>>>>>, <<<<<<"e:DrawingLimits","i:2">>>>>>, <<<<<<"e:SpecificView","i:3">>>>>>, <<<<<<"e:SpecificWindow","i:4">>>>>>, <<<<<<"e:LayoutInformation","i:5">>>>>>>>],
  [n |-> "current_style_sheet", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:current_style_ 24")>>>>, <<<<S("s:a24")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 24 c")>>>>>>],
  [n |-> "standard_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:ScaledToFit","i:0">>>>>>, c |-> <<<<<<<<"e:ScaledToFit","i:0">>>>>>, <<<<<<"e:Scale_1_128_inch_to_1_foot","i:1">>>>>>, <<<<<<"e:Scale_1_64_inch_to_1_foot","i:2">>>>>>, <<<<<<"e:Scale_1_32_inch_to_1_foot","i:3">>>>>>, <<<<<<"e:Scale_1_16_inch_to_1_foot","i:4">>>>>>, <<<<<<"e:Scale_3_32_inch_to_1_foot","i:5">>>>>>, <<<<<<"e:Scale_1_8_inch_to_1_foot","i:6">>>>>>, <<<<<<"e:Scale_3_16_inch_to_1_foot","i:7">>>>>>, <<<<<<"e:Scale_1_4_inch_to_1_foot","i:8">>>>>>, <<<<<<"e:Scale_3_8_inch_to_1_foot","i:9">>>>>>, <<<<<<"e:Scale_1_2_inch_to_1_foot","i:10">>>>>>, <<<<<<"e:Scale_3_4_inch_to_1_foot","i:11">>>>>>, <<<<<<"e:Scale_1_inch_to_1_foot","i:12">>>>>>, <<<<<<"e:Scale_3_inches_to_1_foot","i:13">>>>>>, <<<<<<"e:Scale_6_inches_to_1_foot","i:14">>>>>>, <<<<<<"e:Scale_1_foot_to_1_foot","i:15">>>>>>, <<<<<<"e:Scale_1_to_1","i:16">>>>>>, <<<<<<"e:Scale_1_to_2","i:17">>>>>>, <<<<<<"e:Scale_1_to_4","i:18">>>>>>, <<<<<<"e:Scale_1_to_8","i:19">>>>>>, <<<<<<"e:Scale_1_to_10","i:20">>>>>>, <<<<<<"e:Scale_1_to_16","i:21">>>>>>, <<<<<<"e:Scale_1_to_20","i:22">>>>>>, <<<<<<"e:Scale_1_to_30","i:23">>>>>>, <<<<<<"e:Scale_1_to_40","i:24">>>>>>, <<<<<<"e:Scale_1_to_50","i:25">>>>>>, <<<<<<"e:Scale_1_to_100","i:26">>>>>>, <<<<<<"e:Scale_2_to_1","i:27">>>>>>, <<<<<<"e:Scale_4_to_1","i:28">>>>>>, <<<<<<"e:Scale_8_to_1","i:29">>>>>>, <<<<<<"e:Scale_10_to_1","i:30">>>>>>, <<<<<<"e:Scale_100_to_1","i:31">>>>>>, <<<<<<"e:Scale_1000_to_1","i:32">>>>>>>>],
  [n |-> "shade_plot_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AsDisplayed","i:0">>>>>>, c |-> <<<<<<<<"e:AsDisplayed","i:0">>>>>>, <<<<<<"e:Wireframe","i:1">>>>>>, <<<<<<"e:Hidden","i:2">>>>>>, <<<<<<"e:Rendered","i:3">>>>>>>>],
  [n |-> "shade_plot_resolution_level", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Normal","i:2">>>>>>, c |-> <<<<<<<<"e:Draft","i:0">>>>>>, <<<<<<"e:Preview","i:1">>>>>>, <<<<<<"e:Normal","i:2">>>>>>, <<<<<<"e:Presentation","i:3">>>>>>, <<<<<<"e:Maximum","i:4">>>>>>, <<<<<<"e:Custom","i:5">>>>>>>>],
  [n |-> "shade_plot_custom_dpi", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:100")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:32739")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32740")>>>>>>],
  [n |-> "standard_scale_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "paper_image_origin_x", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "paper_image_origin_y", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:-312.5")>>>>, <<<<S("f:310003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3037109375")>>>>>>],
  [n |-> "__shade_plot_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A20","s:A20">>>>>>, <<<<<<"h:FFFFDF","s:FFFFDF">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbPlotSettings", 1, 21),
  W(2, <<1>>, 1, 21, FALSE, 0),
  W(3, <<2>>, 1, 21, FALSE, 0),
  W(4, <<4>>, 1, 21, FALSE, 0),
  W(5, <<6>>, 1, 21, FALSE, 0),
  W(6, <<40>>, 1, 21, FALSE, 0),
  W(7, <<41>>, 1, 21, FALSE, 0),
  W(8, <<42>>, 1, 21, FALSE, 0),
  W(9, <<43>>, 1, 21, FALSE, 0),
  W(10, <<44>>, 1, 21, FALSE, 0),
  W(11, <<45>>, 1, 21, FALSE, 0),
  W(12, <<46>>, 1, 21, FALSE, 0),
  W(13, <<47>>, 1, 21, FALSE, 0),
  W(14, <<48>>, 1, 21, FALSE, 0),
  W(15, <<49>>, 1, 21, FALSE, 0),
  W(16, <<140>>, 1, 21, FALSE, 0),
  W(17, <<141>>, 1, 21, FALSE, 0),
  W(18, <<142>>, 1, 21, FALSE, 0),
  W(19, <<143>>, 1, 21, FALSE, 0),
  W(20, <<70>>, 1, 21, FALSE, 0),
  W(21, <<72>>, 1, 21, FALSE, 0),
  W(22, <<73>>, 1, 21, FALSE, 0),
  W(23, <<74>>, 1, 21, FALSE, 0),
  W(24, <<7>>, 1, 21, FALSE, 0),
  W(25, <<75>>, 1, 21, FALSE, 0),
  W(26, <<76>>, 17, 21, FALSE, 0),
  W(27, <<77>>, 17, 21, FALSE, 0),
  W(28, <<78>>, 17, 21, FALSE, 0),
  W(29, <<147>>, 1, 21, FALSE, 0),
  W(30, <<148>>, 1, 21, FALSE, 0),
  W(31, <<149>>, 1, 21, FALSE, 0),
  W(32, <<333>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<1,2,1>>,<<2,3,1>>,<<4,4,1>>,<<6,5,1>>,<<40,6,1>>,<<41,7,1>>,<<42,8,1>>,<<43,9,1>>,<<44,10,1>>,<<45,11,1>>,<<46,12,1>>,<<47,13,1>>,<<48,14,1>>,<<49,15,1>>,<<140,16,1>>,<<141,17,1>>,<<142,18,1>>,<<143,19,1>>,<<70,20,1>>,<<72,21,1>>,<<73,22,1>>,<<74,23,1>>,<<7,24,1>>,<<75,25,1>>,<<76,26,1>>,<<77,27,1>>,<<78,28,1>>,<<147,29,1>>,<<148,30,1>>,<<149,31,1>>,<<333,32,1>>,<<330,1,1>>>>]

O_RapidRTRenderEnvironment ==
[key |-> "O.RapidRTRenderEnvironment", tstr |-> "RAPIDRTRENDERENVIRONMENT", min |-> 21, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 5,
 fields |-> OCommon \o <<
  [n |-> "subclass_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "is_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "image_based_lignting_map_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:image_based_li 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:51.25")>>>>, <<<<S("f:-52.5")>>>>, <<<<S("f:50003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0498046875")>>>>>>],
  [n |-> "is_map_as_background", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__custom_background_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A07","s:A07">>>>>>, <<<<<<"h:FFFFF8","s:FFFFF8">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbIBLBackground", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<290>>, 1, 21, FALSE, 0),
  W(4, <<1>>, 1, 21, FALSE, 0),
  W(5, <<40>>, 1, 21, FALSE, 0),
  W(6, <<290>>, 1, 21, FALSE, 0),
  W(7, <<340>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<290,3,1>>,<<1,4,1>>,<<40,5,1>>,<<340,7,1>>,<<330,1,1>>>>]

O_RapidRenderSettings ==
[key |-> "O.RapidRenderSettings", tstr |-> "RAPIDRTRENDERSETTINGS", min |-> 21, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 5,
 fields |-> OCommon \o <<
  [n |-> "subclass_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "render_preset_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:render_preset_ 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "are_materials_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_texture_sampling_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "are_back_faces_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "are_shadows_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "preview_image_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:preview_image_ 8")>>>>, <<<<S("s:a8")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 8 c")>>>>>>],
  [n |-> "render_preset_description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:render_preset_ 9")>>>>, <<<<S("s:a9")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 9 c")>>>>>>],
  [n |-> "display_index", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:101")>>>>, <<<<S("i:-102")>>>>, <<<<S("i:2147483637")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483638")>>>>>>],
  [n |-> "is_predefined_render_present", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "render_duration", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:ByTime","i:0">>>>>>, c |-> <<<<<<<<"e:ByTime","i:0">>>>>>, <<<<<<"e:ByLevel","i:1">>>>>>, <<<<<<"e:UntilSatisfactory","i:2">>>>>>>>],
  [n |-> "render_level_count_imit", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:131")>>>>, <<<<S("i:-132")>>>>, <<<<S("i:2147483634")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483635")>>>>>>],
  [n |-> "render_time_limit", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:141")>>>>, <<<<S("i:-142")>>>>, <<<<S("i:2147483633")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483634")>>>>>>],
  [n |-> "render_accuracy", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Low","i:0">>>>>>, c |-> <<<<<<<<"e:Low","i:0">>>>>>, <<<<<<"e:Draft","i:1">>>>>>, <<<<<<"e:High","i:2">>>>>>>>],
  [n |-> "sampling_filter", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Box","i:0">>>>>>, c |-> <<<<<<<<"e:Box","i:0">>>>>>, <<<<<<"e:Triangle","i:1">>>>>>, <<<<<<"e:Gauss","i:2">>>>>>, <<<<<<"e:Mitchell","i:3">>>>>>, <<<<<<"e:Lanczos","i:4">>>>>>>>],
  [n |-> "filter_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:171.25")>>>>, <<<<S("f:-172.5")>>>>, <<<<S("f:170003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1669921875")>>>>>>],
  [n |-> "filter_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRenderSettings", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<1>>, 1, 21, FALSE, 0),
  W(4, <<290>>, 1, 21, FALSE, 0),
  W(5, <<290>>, 1, 21, FALSE, 0),
  W(6, <<290>>, 1, 21, FALSE, 0),
  W(7, <<290>>, 1, 21, FALSE, 0),
  W(8, <<1>>, 1, 21, FALSE, 0),
  W(9, <<1>>, 1, 21, FALSE, 0),
  W(10, <<90>>, 1, 21, FALSE, 0),
  W(11, <<290>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbRapidRTRenderSettings", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(12, <<70>>, 1, 21, FALSE, 0),
  W(13, <<90>>, 1, 21, FALSE, 0),
  W(14, <<90>>, 1, 21, FALSE, 0),
  W(15, <<70>>, 1, 21, FALSE, 0),
  W(16, <<70>>, 1, 21, FALSE, 0),
  W(17, <<40>>, 1, 21, FALSE, 0),
  W(18, <<40>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<1,3,1>>,<<290,4,1>>,<<70,12,1>>,<<40,17,1>>,<<330,1,1>>>>]

O_RasterVariables ==
[key |-> "O.RasterVariables", tstr |-> "RASTERVARIABLES", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 4,
 fields |-> OCommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "is_display_frame_image", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_high_display_quality", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "image_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Millimeter","i:1">>>>>>, <<<<<<"e:Centimeter","i:2">>>>>>, <<<<<<"e:Meter","i:3">>>>>>, <<<<<<"e:Kilometer","i:4">>>>>>, <<<<<<"e:Inch","i:5">>>>>>, <<<<<<"e:Foot","i:6">>>>>>, <<<<<<"e:Yard","i:7">>>>>>, <<<<<<"e:Mile","i:8">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRasterVariables", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0),
  W(4, <<71>>, 1, 21, FALSE, 0),
  W(5, <<72>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<70,3,1>>,<<71,4,1>>,<<72,5,1>>,<<330,1,1>>>>]

O_MentalRayRenderSettings ==
[key |-> "O.MentalRayRenderSettings", tstr |-> "MENTALRAYRENDERSETTINGS", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 5,
 fields |-> OCommon \o <<
  [n |-> "class_version_1", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "preset_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:preset_name 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "render_materials", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "texture_sampling_quality", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:-52")>>>>, <<<<S("i:2147483642")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483643")>>>>>>],
  [n |-> "render_back_faces", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "render_shadows", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "preview_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:preview_file_n 8")>>>>, <<<<S("s:a8")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 8 c")>>>>>>],
  [n |-> "class_version_2", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:91")>>>>, <<<<S("i:-92")>>>>, <<<<S("i:2147483638")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483639")>>>>>>],
  [n |-> "minimum_sampling_rate", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:101")>>>>, <<<<S("i:-102")>>>>, <<<<S("i:2147483637")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483638")>>>>>>],
  [n |-> "maximum_sampling_rate", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:111")>>>>, <<<<S("i:-112")>>>>, <<<<S("i:2147483636")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483637")>>>>>>],
  [n |-> "sampling_filter_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Box","i:0">>>>>>, c |-> <<<<<<<<"e:Box","i:0">>>>>>, <<<<<<"e:Triangle","i:1">>>>>>, <<<<<<"e:Gauss","i:2">>>>>>, <<<<<<"e:Mitchell","i:3">>>>>>, <<<<<<"e:Lanczos","i:4">>>>>>>>],
  [n |-> "filter_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:131.25")>>>>, <<<<S("f:-132.5")>>>>, <<<<S("f:130003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1279296875")>>>>>>],
  [n |-> "filter_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:141.25")>>>>, <<<<S("f:-142.5")>>>>, <<<<S("f:140003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1376953125")>>>>>>],
  [n |-> "sampling_contrast_color_red", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:151.25")>>>>, <<<<S("f:-152.5")>>>>, <<<<S("f:150003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1474609375")>>>>>>],
  [n |-> "sampling_contrast_color_green", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25")>>>>, <<<<S("f:-162.5")>>>>, <<<<S("f:160003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1572265625")>>>>>>],
  [n |-> "sampling_contrast_color_blue", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:171.25")>>>>, <<<<S("f:-172.5")>>>>, <<<<S("f:170003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1669921875")>>>>>>],
  [n |-> "sampling_contrast_color_alpha", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "shadow_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Simple","i:0">>>>>>, c |-> <<<<<<<<"e:Simple","i:0">>>>>>, <<<<<<"e:Sort","i:1">>>>>>, <<<<<<"e:Segment","i:2">>>>>>>>],
  [n |-> "map_shadows", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "ray_tracing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "ray_tracing_depth_reflections", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:2147483625")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483626")>>>>>>],
  [n |-> "ray_tracing_depth_refractions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:2147483624")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483625")>>>>>>],
  [n |-> "ray_tracing_depth_maximum", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:2147483623")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483624")>>>>>>],
  [n |-> "use_global_illumination", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "sample_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:2147483621")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483622")>>>>>>],
  [n |-> "use_global_illumination_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "global_illumination_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "photons_per_light", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:291")>>>>, <<<<S("i:-292")>>>>, <<<<S("i:2147483618")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483619")>>>>>>],
  [n |-> "global_illumination_depth_reflections", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:301")>>>>, <<<<S("i:-302")>>>>, <<<<S("i:2147483617")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483618")>>>>>>],
  [n |-> "global_illumination_depth_refractions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:311")>>>>, <<<<S("i:-312")>>>>, <<<<S("i:2147483616")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483617")>>>>>>],
  [n |-> "global_illumination_depth_maximum", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:321")>>>>, <<<<S("i:-322")>>>>, <<<<S("i:2147483615")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483616")>>>>>>],
  [n |-> "use_final_gather", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "final_gather_ray_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:2147483613")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483614")>>>>>>],
  [n |-> "use_final_gather_minimum_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_final_gather_maximum_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_final_gather_pixels", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "final_gather_sample_radius_minimum", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:381.25")>>>>, <<<<S("f:-382.5")>>>>, <<<<S("f:380003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3720703125")>>>>>>],
  [n |-> "final_gather_sample_radius_maximum", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:391.25")>>>>, <<<<S("f:-392.5")>>>>, <<<<S("f:390003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3818359375")>>>>>>],
  [n |-> "luminance_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:401.25")>>>>, <<<<S("f:-402.5")>>>>, <<<<S("f:400003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3916015625")>>>>>>],
  [n |-> "diagnostic_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Off","i:0">>>>>>, c |-> <<<<<<<<"e:Off","i:0">>>>>>, <<<<<<"e:Grid","i:1">>>>>>, <<<<<<"e:Photon","i:2">>>>>>, <<<<<<"e:BSP","i:4">>>>>>>>],
  [n |-> "diagnostic_grid_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Object","i:0">>>>>>, c |-> <<<<<<<<"e:Object","i:0">>>>>>, <<<<<<"e:World","i:1">>>>>>, <<<<<<"e:Camera","i:2">>>>>>>>],
  [n |-> "grid_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:431.25")>>>>, <<<<S("f:-432.5")>>>>, <<<<S("f:430003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4208984375")>>>>>>],
  [n |-> "diagnostic_photon_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Density","i:0">>>>>>, c |-> <<<<<<<<"e:Density","i:0">>>>>>, <<<<<<"e:Irradiance","i:1">>>>>>>>],
  [n |-> "diagnostic_bsp_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Depth","i:0">>>>>>, c |-> <<<<<<<<"e:Depth","i:0">>>>>>, <<<<<<"e:Size","i:1">>>>>>>>],
  [n |-> "export_mi_statistics", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "mi_statistics_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:mi_statistics_ 47")>>>>, <<<<S("s:a47")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 47 c")>>>>>>],
  [n |-> "tile_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:481")>>>>, <<<<S("i:-482")>>>>, <<<<S("i:2147483599")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483600")>>>>>>],
  [n |-> "tile_order", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Hilbert","i:0">>>>>>, c |-> <<<<<<<<"e:Hilbert","i:0">>>>>>, <<<<<<"e:Spiral","i:1">>>>>>, <<<<<<"e:LeftToRight","i:2">>>>>>, <<<<<<"e:RightToLeft","i:3">>>>>>, <<<<<<"e:TopToBottom","i:4">>>>>>, <<<<<<"e:BottomToTop","i:5">>>>>>>>],
  [n |-> "memory_limit", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:501")>>>>, <<<<S("i:-502")>>>>, <<<<S("i:2147483597")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483598")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRenderSettings", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<1>>, 1, 21, FALSE, 0),
  W(4, <<290>>, 1, 21, FALSE, 0),
  W(5, <<90>>, 1, 21, FALSE, 0),
  W(6, <<290>>, 1, 21, FALSE, 0),
  W(7, <<290>>, 1, 21, FALSE, 0),
  W(8, <<1>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbMentalRayRenderSettings", 1, 21),
  W(9, <<90>>, 1, 21, FALSE, 0),
  W(10, <<90>>, 1, 21, FALSE, 0),
  W(11, <<90>>, 1, 21, FALSE, 0),
  W(12, <<70>>, 1, 21, FALSE, 0),
  W(13, <<40>>, 1, 21, FALSE, 0),
  W(14, <<40>>, 1, 21, FALSE, 0),
  W(15, <<40>>, 1, 21, FALSE, 0),
  W(16, <<40>>, 1, 21, FALSE, 0),
  W(17, <<40>>, 1, 21, FALSE, 0),
  W(18, <<40>>, 1, 21, FALSE, 0),
  W(19, <<70>>, 1, 21, FALSE, 0),
  W(20, <<290>>, 1, 21, FALSE, 0),
  W(21, <<290>>, 1, 21, FALSE, 0),
  W(22, <<90>>, 1, 21, FALSE, 0),
  W(23, <<90>>, 1, 21, FALSE, 0),
  W(24, <<90>>, 1, 21, FALSE, 0),
  W(25, <<290>>, 1, 21, FALSE, 0),
  W(26, <<90>>, 1, 21, FALSE, 0),
  W(27, <<290>>, 1, 21, FALSE, 0),
  W(28, <<40>>, 1, 21, FALSE, 0),
  W(29, <<90>>, 1, 21, FALSE, 0),
  W(30, <<90>>, 1, 21, FALSE, 0),
  W(31, <<90>>, 1, 21, FALSE, 0),
  W(32, <<90>>, 1, 21, FALSE, 0),
  W(33, <<290>>, 1, 21, FALSE, 0),
  W(34, <<90>>, 1, 21, FALSE, 0),
  W(35, <<290>>, 1, 21, FALSE, 0),
  W(36, <<290>>, 1, 21, FALSE, 0),
  W(37, <<290>>, 1, 21, FALSE, 0),
  W(38, <<40>>, 1, 21, FALSE, 0),
  W(39, <<40>>, 1, 21, FALSE, 0),
  W(40, <<40>>, 1, 21, FALSE, 0),
  W(41, <<70>>, 1, 21, FALSE, 0),
  W(42, <<70>>, 1, 21, FALSE, 0),
  W(43, <<40>>, 1, 21, FALSE, 0),
  W(44, <<70>>, 1, 21, FALSE, 0),
  W(45, <<70>>, 1, 21, FALSE, 0),
  W(46, <<290>>, 1, 21, FALSE, 0),
  W(47, <<1>>, 1, 21, FALSE, 0),
  W(48, <<90>>, 1, 21, FALSE, 0),
  W(49, <<70>>, 1, 21, FALSE, 0),
  W(50, <<90>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<1,3,1>>,<<290,4,1>>,<<70,12,1>>,<<40,13,1>>,<<330,1,1>>>>]

O_RenderEnvironment ==
[key |-> "O.RenderEnvironment", tstr |-> "RENDERENVIRONMENT", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 5,
 fields |-> OCommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "is_fog_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_background_fog_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "fog_color_red", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:-52")>>>>, <<<<S("i:32762")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32763")>>>>>>],
  [n |-> "fog_color_green", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:61")>>>>, <<<<S("i:-62")>>>>, <<<<S("i:32761")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32762")>>>>>>],
  [n |-> "fog_color_blue", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:71")>>>>, <<<<S("i:-72")>>>>, <<<<S("i:32760")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32761")>>>>>>],
  [n |-> "near_fog_density_percent", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "far_fog_density_percent", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "near_clipping_plane_distance_percent", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "far_clipping_plane_distance_percent", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:111.25")>>>>, <<<<S("f:-112.5")>>>>, <<<<S("f:110003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1083984375")>>>>>>],
  [n |-> "use_environment_image", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "environment_image_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:environment_im 13")>>>>, <<<<S("s:a13")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 13 c")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRenderEnvironment", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<290>>, 1, 21, FALSE, 0),
  W(4, <<290>>, 1, 21, FALSE, 0),
  W(5, <<280>>, 1, 21, FALSE, 0),
  W(6, <<280>>, 1, 21, FALSE, 0),
  W(7, <<280>>, 1, 21, FALSE, 0),
  W(8, <<40>>, 1, 21, FALSE, 0),
  W(9, <<40>>, 1, 21, FALSE, 0),
  W(10, <<40>>, 1, 21, FALSE, 0),
  W(11, <<40>>, 1, 21, FALSE, 0),
  W(12, <<290>>, 1, 21, FALSE, 0),
  W(13, <<1>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<290,3,1>>,<<280,5,1>>,<<40,8,1>>,<<1,13,1>>,<<330,1,1>>>>]

O_RenderGlobal ==
[key |-> "O.RenderGlobal", tstr |-> "RENDERGLOBAL", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 3,
 fields |-> OCommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:2")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "render_procedure", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:View","i:0">>>>>>, c |-> <<<<<<<<"e:View","i:0">>>>>>, <<<<<<"e:Crop","i:1">>>>>>, <<<<<<"e:Selection","i:2">>>>>>>>],
  [n |-> "render_destination", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:RenderWindow","i:0">>>>>>, c |-> <<<<<<<<"e:RenderWindow","i:0">>>>>>, <<<<<<"e:Viewport","i:1">>>>>>>>],
  [n |-> "save_to_file", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "save_to_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:save_to_file_n 6")>>>>, <<<<S("s:a6")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 6 c")>>>>>>],
  [n |-> "image_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:71")>>>>, <<<<S("i:-72")>>>>, <<<<S("i:2147483640")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483641")>>>>>>],
  [n |-> "image_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:81")>>>>, <<<<S("i:-82")>>>>, <<<<S("i:2147483639")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483640")>>>>>>],
  [n |-> "use_predefined_presets_first", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_high_info_level", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRenderGlobal", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<90>>, 1, 21, FALSE, 0),
  W(4, <<90>>, 1, 21, FALSE, 0),
  W(5, <<290>>, 1, 21, FALSE, 0),
  W(6, <<1>>, 1, 21, FALSE, 0),
  W(7, <<90>>, 1, 21, FALSE, 0),
  W(8, <<90>>, 1, 21, FALSE, 0),
  W(9, <<290>>, 1, 21, FALSE, 0),
  W(10, <<290>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<290,5,1>>,<<1,6,1>>,<<330,1,1>>>>]

O_SectionManager ==
[key |-> "O.SectionManager", tstr |-> "SECTIONMANAGER", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 3,
 fields |-> OCommon \o <<
  [n |-> "requires_full_update", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__section_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:2147483644")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483645")>>>>>>],
  [n |-> "__section_entities_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A04","s:A04">>>>>>, <<<<<<"h:A04","s:A04">>>>,<<<<"h:FFFFFB","s:FFFFFB">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFB","s:FFFFFB">>>>,<<<<"h:A04","s:A04">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbSectionManager", 1, 21),
  W(2, <<70>>, 1, 21, FALSE, 0),
  N(90, 4, "i", 1, 21),
  W(4, <<330>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<70,2,1>>,<<90,3,1>>,<<330,4,1>>,<<330,1,1>>>>]

O_SectionSettings ==
[key |-> "O.SectionSettings", tstr |-> "SECTIONSETTINGS", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "section_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbSectionSettings", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  M(91, "i:0", 1, 21)>>,
 rd |-> <<<<90,2,1>>,<<330,1,1>>>>]

O_SortentsTable ==
[key |-> "O.SortentsTable", tstr |-> "SORTENTSTABLE", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "__entities_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A02","s:A02">>>>>>, <<<<<<"h:A02","s:A02">>>>,<<<<"h:FFFFFD","s:FFFFFD">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFD","s:FFFFFD">>>>,<<<<"h:A02","s:A02">>>>>>>>],
  [n |-> "__sort_items_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A03","s:A03">>>>>>, <<<<<<"h:A03","s:A03">>>>,<<<<"h:FFFFFC","s:FFFFFC">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFFC","s:FFFFFC">>>>,<<<<"h:A03","s:A03">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbSortentsTable", 1, 21),
  W(2, <<331>>, 1, 21, FALSE, 0),
  W(3, <<5>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<331,2,1>>,<<5,3,1>>,<<330,1,1>>>>]

O_SpatialFilter ==
[key |-> "O.SpatialFilter", tstr |-> "SPATIAL_FILTER", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 46,
 fields |-> OCommon \o <<
  [n |-> "clip_boundary_definition_points", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:81.25"),S("f:91.25"),S("f:101.25")>>>>, <<<<S("f:81.25"),S("f:91.25"),S("f:101.25")>>,<<S("f:-82.5"),S("f:-92.5"),S("f:-102.5")>>,<<S("f:80003.125"),S("f:90003.125"),S("f:100003.125")>>>>, <<>>, <<<<S("f:-82.5"),S("f:-92.5"),S("f:-102.5")>>,<<S("f:81.25"),S("f:91.25"),S("f:101.25")>>>>>>],
  [n |-> "clip_boundary_normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:121.25"),S("f:131.25"),S("f:141.25")>>>>, <<<<S("f:-122.5"),S("f:-132.5"),S("f:-142.5")>>>>, <<<<S("f:120003.125"),S("f:130003.125"),S("f:140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "clip_boundary_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25"),S("f:171.25"),S("f:181.25")>>>>, <<<<S("f:-162.5"),S("f:-172.5"),S("f:-182.5")>>>>, <<<<S("f:160003.125"),S("f:170003.125"),S("f:180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "is_clip_boundary_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_front_clipping_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "front_clipping_plane_distance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "is_back_clipping_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "back_clipping_plane_distance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "inverse_transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:401.25"),S("f:411.25"),S("f:421.25"),S("f:431.25"),S("f:441.25"),S("f:451.25"),S("f:461.25"),S("f:471.25"),S("f:481.25"),S("f:491.25"),S("f:501.25"),S("f:511.25"),S("f:521.25"),S("f:531.25"),S("f:541.25"),S("f:551.25")>>>>, <<<<S("f:-402.5"),S("f:-412.5"),S("f:-422.5"),S("f:-432.5"),S("f:-442.5"),S("f:-452.5"),S("f:-462.5"),S("f:-472.5"),S("f:-482.5"),S("f:-492.5"),S("f:-502.5"),S("f:-512.5"),S("f:-522.5"),S("f:-532.5"),S("f:-542.5"),S("f:-552.5")>>>>, <<<<S("f:400003.125"),S("f:410003.125"),S("f:420003.125"),S("f:430003.125"),S("f:440003.125"),S("f:450003.125"),S("f:460003.125"),S("f:470003.125"),S("f:480003.125"),S("f:490003.125"),S("f:500003.125"),S("f:510003.125"),S("f:520003.125"),S("f:530003.125"),S("f:540003.125"),S("f:550003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "transformation_matrix", ks |-> <<"m11","m12","m13","m14","m21","m22","m23","m24","m31","m32","m33","m34","m41","m42","m43","m44">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:441.25"),S("f:451.25"),S("f:461.25"),S("f:471.25"),S("f:481.25"),S("f:491.25"),S("f:501.25"),S("f:511.25"),S("f:521.25"),S("f:531.25"),S("f:541.25"),S("f:551.25"),S("f:561.25"),S("f:571.25"),S("f:581.25"),S("f:591.25")>>>>, <<<<S("f:-442.5"),S("f:-452.5"),S("f:-462.5"),S("f:-472.5"),S("f:-482.5"),S("f:-492.5"),S("f:-502.5"),S("f:-512.5"),S("f:-522.5"),S("f:-532.5"),S("f:-542.5"),S("f:-552.5"),S("f:-562.5"),S("f:-572.5"),S("f:-582.5"),S("f:-592.5")>>>>, <<<<S("f:440003.125"),S("f:450003.125"),S("f:460003.125"),S("f:470003.125"),S("f:480003.125"),S("f:490003.125"),S("f:500003.125"),S("f:510003.125"),S("f:520003.125"),S("f:530003.125"),S("f:540003.125"),S("f:550003.125"),S("f:560003.125"),S("f:570003.125"),S("f:580003.125"),S("f:590003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbFilter", 1, 21),
  M(100, "s:AcDbSpatialFilter", 1, 21),
  N(70, 2, "i", 1, 21),
  W(2, <<10,20,30>>, 1, 21, FALSE, 0),
  W(3, <<210,220,230>>, 1, 21, FALSE, 0),
  W(4, <<11,21,31>>, 1, 21, FALSE, 0),
  W(5, <<71>>, 1, 21, FALSE, 0),
  W(6, <<72>>, 1, 21, FALSE, 0),
  W(7, <<40>>, 1, 21, FALSE, 0),
  W(8, <<73>>, 1, 21, FALSE, 0),
  W(9, <<41>>, 1, 21, FALSE, 0),
  X(10, <<<<40,1,1,"">>,<<40,5,1,"">>,<<40,9,1,"">>,<<40,2,1,"">>,<<40,6,1,"">>,<<40,10,1,"">>,<<40,3,1,"">>,<<40,7,1,"">>,<<40,11,1,"">>,<<40,4,1,"">>,<<40,8,1,"">>,<<40,12,1,"">>>>, 1, 21, FALSE, 0),
  X(11, <<<<40,1,1,"">>,<<40,5,1,"">>,<<40,9,1,"">>,<<40,2,1,"">>,<<40,6,1,"">>,<<40,10,1,"">>,<<40,3,1,"">>,<<40,7,1,"">>,<<40,11,1,"">>,<<40,4,1,"">>,<<40,8,1,"">>,<<40,12,1,"">>>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<10,2,1>>,<<20,2,2>>,<<30,2,3>>,<<210,3,1>>,<<220,3,2>>,<<230,3,3>>,<<11,4,1>>,<<21,4,2>>,<<31,4,3>>,<<71,5,1>>,<<72,6,1>>,<<40,7,1>>,<<73,8,1>>,<<41,9,1>>,<<40,10,1>>,<<40,10,2>>,<<40,10,3>>,<<40,10,4>>,<<40,10,5>>,<<40,10,6>>,<<40,10,7>>,<<40,10,8>>,<<40,10,9>>,<<40,10,10>>,<<40,10,11>>,<<40,10,12>>,<<40,10,13>>,<<40,10,14>>,<<40,10,15>>,<<40,10,16>>,<<40,11,1>>,<<40,11,2>>,<<40,11,3>>,<<40,11,4>>,<<40,11,5>>,<<40,11,6>>,<<40,11,7>>,<<40,11,8>>,<<40,11,9>>,<<40,11,10>>,<<40,11,11>>,<<40,11,12>>,<<40,11,13>>,<<40,11,14>>,<<40,11,15>>,<<40,11,16>>,<<330,1,1>>>>]

O_SpatialIndex ==
[key |-> "O.SpatialIndex", tstr |-> "SPATIAL_INDEX", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "timestamp", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"d:2000-01-01T00:00:00Z","*">>>>>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>>>, <<<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<<<<<"d:1970-01-01T00:00:01Z","*">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbIndex", 1, 21),
  W(2, <<40>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbSpatialIndex", 1, 21)>>,
 rd |-> <<<<40,2,1>>,<<330,1,1>>>>]

O_SunStudy ==
[key |-> "O.SunStudy", tstr |-> "SUNSTUDY", min |-> 20, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 23,
 fields |-> OCommon \o <<
  [n |-> "version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "sun_setup_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:sun_setup_name 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "output_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:-52")>>>>, <<<<S("i:32762")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32763")>>>>>>],
  [n |-> "sheet_set_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:sheet_set_name 6")>>>>, <<<<S("s:a6")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 6 c")>>>>>>],
  [n |-> "use_subset", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "sheet_subset_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:sheet_subset_n 8")>>>>, <<<<S("s:a8")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 8 c")>>>>>>],
  [n |-> "select_dates_from_calendar", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dates", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:2001-02-03T04:05:06Z","*">>>>,<<<<"d:1999-12-31T23:59:59Z","*">>>>,<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>,<<<<"d:2001-02-03T04:05:06Z","*">>>>>>>>],
  [n |-> "select_range_of_dates", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "start_time_seconds_past_midnight", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:121")>>>>, <<<<S("i:-122")>>>>, <<<<S("i:2147483635")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483636")>>>>>>],
  [n |-> "end_time_seconds_past_midnight", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:131")>>>>, <<<<S("i:-132")>>>>, <<<<S("i:2147483634")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483635")>>>>>>],
  [n |-> "interval_in_seconds", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:141")>>>>, <<<<S("i:-142")>>>>, <<<<S("i:2147483633")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483634")>>>>>>],
  [n |-> "hours", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:31")>>,<<S("i:32")>>,<<S("i:0")>>>>, <<>>, <<<<S("i:32")>>,<<S("i:31")>>>>>>],
  [n |-> "__page_setup_wizard_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A10","s:A10">>>>>>, <<<<<<"h:FFFFEF","s:FFFFEF">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__view_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A11","s:A11">>>>>>, <<<<<<"h:FFFFEE","s:FFFFEE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__visual_style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "shade_plot_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:32748")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32749")>>>>>>],
  [n |-> "viewports_per_page", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:32747")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32748")>>>>>>],
  [n |-> "viewport_distribution_row_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:211")>>>>, <<<<S("i:-212")>>>>, <<<<S("i:32746")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32747")>>>>>>],
  [n |-> "viewport_distribution_column_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>],
  [n |-> "spacing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "lock_viewports", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "label_viewports", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__text_style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A1A","s:A1A">>>>>>, <<<<<<"h:FFFFE5","s:FFFFE5">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbSunStudy", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<1>>, 1, 21, FALSE, 0),
  W(4, <<2>>, 1, 21, FALSE, 0),
  W(5, <<70>>, 1, 21, FALSE, 0),
  W(6, <<3>>, 1, 21, FALSE, 0),
  W(7, <<290>>, 1, 21, FALSE, 0),
  W(8, <<4>>, 1, 21, FALSE, 0),
  W(9, <<291>>, 1, 21, FALSE, 0),
  N(91, 10, "i", 1, 21),
  X(10, <<<<90,1,1,"">>,<<90,1,1,"">>>>, 1, 21, FALSE, 0),
  W(11, <<292>>, 1, 21, FALSE, 0),
  W(12, <<93>>, 1, 21, FALSE, 0),
  W(13, <<94>>, 1, 21, FALSE, 0),
  W(14, <<95>>, 1, 21, FALSE, 0),
  N(73, 15, "i", 1, 21),
  W(15, <<290>>, 1, 21, FALSE, 0),
  W(16, <<340>>, 1, 21, FALSE, 0),
  W(17, <<341>>, 1, 21, FALSE, 0),
  W(18, <<342>>, 1, 21, FALSE, 0),
  W(19, <<74>>, 1, 21, FALSE, 0),
  W(20, <<75>>, 1, 21, FALSE, 0),
  W(21, <<76>>, 1, 21, FALSE, 0),
  W(22, <<77>>, 1, 21, FALSE, 0),
  W(23, <<40>>, 1, 21, FALSE, 0),
  W(24, <<293>>, 1, 21, FALSE, 0),
  W(25, <<294>>, 1, 21, FALSE, 0),
  W(26, <<343>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<1,3,1>>,<<2,4,1>>,<<70,5,1>>,<<3,6,1>>,<<290,7,1>>,<<4,8,1>>,<<291,9,1>>,<<292,11,1>>,<<93,12,1>>,<<94,13,1>>,<<95,14,1>>,<<340,16,1>>,<<341,17,1>>,<<342,18,1>>,<<74,19,1>>,<<75,20,1>>,<<76,21,1>>,<<77,22,1>>,<<40,23,1>>,<<293,24,1>>,<<294,25,1>>,<<343,26,1>>,<<330,1,1>>>>]

O_TableStyle ==
[key |-> "O.TableStyle", tstr |-> "TABLESTYLE", min |-> 17, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 7,
 fields |-> OCommon \o <<
  [n |-> "version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "flow_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Down","i:0">>>>>>, c |-> <<<<<<<<"e:Down","i:0">>>>>>, <<<<<<"e:Up","i:1">>>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:-52")>>>>, <<<<S("i:32762")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32763")>>>>>>],
  [n |-> "horizontal_cell_margin", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.06")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "vertical_cell_margin", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.06")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "is_title_suppressed", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_column_heading_suppressed", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbTableStyle", 1, 21),
  W(2, <<280>>, 19, 21, FALSE, 0),
  W(3, <<3>>, 1, 21, FALSE, 0),
  W(4, <<70>>, 1, 21, FALSE, 0),
  W(5, <<71>>, 1, 21, FALSE, 0),
  W(6, <<40>>, 1, 21, FALSE, 0),
  W(7, <<41>>, 1, 21, FALSE, 0),
  W(8, <<280>>, 1, 21, FALSE, 0),
  W(9, <<281>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,2,1>>,<<3,3,1>>,<<70,4,1>>,<<71,5,1>>,<<40,6,1>>,<<41,7,1>>,<<281,9,1>>,<<330,1,1>>>>]

O_UnderlayDefinition ==
[key |-> "O.UnderlayDefinition", tstr |-> "UNDERLAYDEFINITION", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:file_name 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:name 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbUnderlayDefinition", 1, 21),
  W(2, <<1>>, 1, 21, FALSE, 0),
  W(3, <<2>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<1,2,1>>,<<2,3,1>>,<<330,1,1>>>>]

O_VbaProject ==
[key |-> "O.VbaProject", tstr |-> "VBA_PROJECT", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "data", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("x:")>>>>, c |-> <<<<<<S("x:0201FF")>>>>, <<<<S("x:00")>>>>, <<<<S("x:02030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F8081")>>>>, <<<<S("x:0A0D5C5E")>>>>>>],
  [n |-> "__hex_data", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("x:0301FF")>>>>, <<<<S("x:0301FF")>>,<<S("x:00")>>,<<S("x:030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:0301FF")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbVbaProject", 1, 21),
  M(90, "*", 1, 21),
  W(2, <<310>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<310,3,1>>,<<330,1,1>>>>]

O_VisualStyle ==
[key |-> "O.VisualStyle", tstr |-> "VISUALSTYLE", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 34,
 fields |-> OCommon \o <<
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "type_code", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:32764")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32765")>>>>>>],
  [n |-> "face_lighting_model", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Visible","i:1">>>>>>, c |-> <<<<<<<<"e:Invisible","i:0">>>>>>, <<<<<<"e:Visible","i:1">>>>>>, <<<<<<"e:Phong","i:2">>>>>>, <<<<<<"e:Gooch","i:3">>>>>>>>],
  [n |-> "face_lighting_quality", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:PerFace","i:1">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:PerFace","i:1">>>>>>, <<<<<<"e:PerVertex","i:2">>>>>>>>],
  [n |-> "face_color_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:ObjectColor","i:1">>>>>>, c |-> <<<<<<<<"e:NoColor","i:0">>>>>>, <<<<<<"e:ObjectColor","i:1">>>>>>, <<<<<<"e:BackgroundColor","i:2">>>>>>, <<<<<<"e:CustomColor","i:3">>>>>>, <<<<<<"e:MonoColor","i:4">>>>>>, <<<<<<"e:Tinted","i:5">>>>>>, <<<<<<"e:Desaturated","i:6">>>>>>>>],
  [n |-> "face_modifier", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Opacity","i:1">>>>>>, <<<<<<"e:Specular","i:2">>>>>>>>],
  [n |-> "face_opacity_level", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "face_specular_level", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "color1", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:11")>>>>, <<<<S("i:256")>>>>, <<<<S("i:61")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "color2", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:12")>>>>, <<<<S("i:256")>>>>, <<<<S("i:62")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "face_style_mono_color", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:121")>>>>, <<<<S("i:-122")>>>>, <<<<S("i:2147483635")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483636")>>>>>>],
  [n |-> "edge_style_model", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoEdges","i:0">>>>>>, c |-> <<<<<<<<"e:NoEdges","i:0">>>>>>, <<<<<<"e:IsoLines","i:1">>>>>>, <<<<<<"e:FacetEdges","i:2">>>>>>>>],
  [n |-> "edge_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:141")>>>>, <<<<S("i:-142")>>>>, <<<<S("i:2147483633")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483634")>>>>>>],
  [n |-> "edge_intersection_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:16")>>>>, <<<<S("i:256")>>>>, <<<<S("i:66")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "edge_obscured_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:17")>>>>, <<<<S("i:256")>>>>, <<<<S("i:67")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "edge_obscured_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:171")>>>>, <<<<S("i:-172")>>>>, <<<<S("i:32750")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32751")>>>>>>],
  [n |-> "edge_intersection_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "edge_crease_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "edge_modifiers", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:2147483627")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483628")>>>>>>],
  [n |-> "edge_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:22")>>>>, <<<<S("i:256")>>>>, <<<<S("i:72")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "edge_opacity_level", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "edge_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:32744")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32745")>>>>>>],
  [n |-> "edge_overhang", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "edge_jitter", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "edge_silhouette_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:27")>>>>, <<<<S("i:256")>>>>, <<<<S("i:77")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "edge_silhouette_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "edge_halo_gap", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:32739")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32740")>>>>>>],
  [n |-> "edge_iso_line_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:291")>>>>, <<<<S("i:-292")>>>>, <<<<S("i:32738")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32739")>>>>>>],
  [n |-> "hide_edge_line_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "edge_style_apply_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:311")>>>>, <<<<S("i:-312")>>>>, <<<<S("i:32736")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32737")>>>>>>],
  [n |-> "display_style_settings", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:321")>>>>, <<<<S("i:-322")>>>>, <<<<S("i:2147483615")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483616")>>>>>>],
  [n |-> "brightness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:-332.5")>>>>, <<<<S("f:330003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3232421875")>>>>>>],
  [n |-> "shadow_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:32733")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32734")>>>>>>],
  [n |-> "internal_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbVisualStyle", 1, 21),
  W(2, <<2>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0),
  W(4, <<71>>, 1, 21, FALSE, 0),
  W(5, <<72>>, 1, 21, FALSE, 0),
  W(6, <<73>>, 1, 21, FALSE, 0),
  W(7, <<90>>, 1, 21, FALSE, 0),
  W(8, <<40>>, 1, 21, FALSE, 0),
  W(9, <<41>>, 1, 21, FALSE, 0),
  W(10, <<62>>, 1, 21, FALSE, 0),
  W(11, <<63>>, 1, 21, FALSE, 0),
  W(12, <<421>>, 1, 21, FALSE, 0),
  W(13, <<74>>, 1, 21, FALSE, 0),
  W(14, <<91>>, 1, 21, FALSE, 0),
  W(15, <<64>>, 1, 21, FALSE, 0),
  W(16, <<65>>, 1, 21, FALSE, 0),
  W(17, <<75>>, 1, 21, FALSE, 0),
  W(18, <<175>>, 1, 21, FALSE, 0),
  W(19, <<42>>, 1, 21, FALSE, 0),
  W(20, <<92>>, 1, 21, FALSE, 0),
  W(21, <<66>>, 1, 21, FALSE, 0),
  W(22, <<43>>, 1, 21, FALSE, 0),
  W(23, <<76>>, 1, 21, FALSE, 0),
  W(24, <<77>>, 1, 21, FALSE, 0),
  W(25, <<78>>, 1, 21, FALSE, 0),
  W(26, <<67>>, 1, 21, FALSE, 0),
  W(27, <<79>>, 1, 21, FALSE, 0),
  W(28, <<170>>, 1, 21, FALSE, 0),
  W(29, <<171>>, 1, 21, FALSE, 0),
  W(30, <<290>>, 1, 21, FALSE, 0),
  W(31, <<174>>, 1, 21, FALSE, 0),
  W(32, <<93>>, 1, 21, FALSE, 0),
  W(33, <<44>>, 1, 21, FALSE, 0),
  W(34, <<173>>, 1, 21, FALSE, 0),
  W(35, <<291>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<2,2,1>>,<<70,3,1>>,<<71,4,1>>,<<72,5,1>>,<<73,6,1>>,<<90,7,1>>,<<40,8,1>>,<<41,9,1>>,<<62,10,1>>,<<63,11,1>>,<<421,12,1>>,<<74,13,1>>,<<91,14,1>>,<<64,15,1>>,<<65,16,1>>,<<75,17,1>>,<<175,18,1>>,<<42,19,1>>,<<92,20,1>>,<<66,21,1>>,<<43,22,1>>,<<76,23,1>>,<<77,24,1>>,<<78,25,1>>,<<67,26,1>>,<<79,27,1>>,<<170,28,1>>,<<171,29,1>>,<<290,30,1>>,<<174,31,1>>,<<93,32,1>>,<<44,33,1>>,<<173,34,1>>,<<291,35,1>>,<<330,1,1>>>>]

O_WipeoutVariables ==
[key |-> "O.WipeoutVariables", tstr |-> "WIPEOUTVARIABLES", min |-> 17, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 2,
 fields |-> OCommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:21")>>>>, <<<<S("i:-22")>>>>, <<<<S("i:2147483645")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483646")>>>>>>],
  [n |-> "display_image_frame", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbRasterVariables", 1, 21),
  W(2, <<90>>, 1, 21, FALSE, 0),
  W(3, <<70>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,2,1>>,<<70,3,1>>,<<330,1,1>>>>]

O_XRecordObject ==
[key |-> "O.XRecordObject", tstr |-> "XRECORD", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 1,
 fields |-> OCommon \o <<
  [n |-> "duplicate_record_handling", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NotApplicable","i:0">>>>>>, c |-> <<<<<<<<"e:NotApplicable","i:0">>>>>>, <<<<<<"e:KeepExisting","i:1">>>>>>, <<<<<<"e:UseClone","i:2">>>>>>, <<<<<<"e:UpdateXrefAndName","i:3">>>>>>, <<<<<<"e:UpdateName","i:4">>>>>>, <<<<<<"e:UnmangleName","i:5">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbXrecord", 1, 21),
  W(2, <<280>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,2,1>>,<<330,1,1>>>>]

Kinds == <<O_AcadProxyObject, O_DictionaryWithDefault, O_PlaceHolder, O_NavisWorksModelDefinition, O_Dictionary, O_DictionaryVariable, O_DimensionAssoc, O_Field, O_GeoData, O_Group, O_IdBuffer, O_ImageDefinition, O_ImageDefinitionReactor, O_LayerFilter, O_LayerIndex, O_Layout, O_LightList, O_Material, O_MLeaderStyle, O_MLineStyle, O_ObjectPointer, O_PlotSettings, O_RapidRTRenderEnvironment, O_RapidRenderSettings, O_RasterVariables, O_MentalRayRenderSettings, O_RenderEnvironment, O_RenderGlobal, O_SectionManager, O_SectionSettings, O_SortentsTable, O_SpatialFilter, O_SpatialIndex, O_SunStudy, O_TableStyle, O_UnderlayDefinition, O_VbaProject, O_VisualStyle, O_WipeoutVariables, O_XRecordObject>>
================================================================================
