---------------------------- MODULE RecEntities ----------------------------
(* Record catalogue, drafted from the DXF record definitions by tools/xml2tla.py and
   frozen here: what each record kind contains, with which group codes, in which file
   versions, and the values the model assigns to each field.  See Records.tla. *)
EXTENDS RecOps

ECommon == <<
  [n |-> "common.__owner_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A01","s:A01">>>>>>, <<<<<<"h:FFFFFE","s:FFFFFE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "common.is_in_paper_space", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "common.layer", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:0")>>>>, c |-> <<<<<<S("s:layer 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "common.line_type_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:BYLAYER")>>>>, c |-> <<<<<<S("s:line_type_name 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "common.elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:51.25")>>>>, <<<<S("f:-52.5")>>>>, <<<<S("f:50003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0498046875")>>>>>>],
  [n |-> "common.__material_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A06","s:A06">>>>>>, <<<<<<"h:FFFFF9","s:FFFFF9">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "common.color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:256")>>>>, c |-> <<<<<<S("i:8")>>>>, <<<<S("i:256")>>>>, <<<<S("i:58")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "common.lineweight_enum_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:81")>>>>, <<<<S("i:-82")>>>>, <<<<S("i:32759")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32760")>>>>>>],
  [n |-> "common.line_type_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "common.is_visible", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:0">>>>>>, <<<<<<"b:false","i:1">>>>>>>>],
  [n |-> "common.image_byte_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:111")>>>>, <<<<S("i:-112")>>>>, <<<<S("i:2147483636")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483637")>>>>>>],
  [n |-> "common.preview_image_data", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("x:0C01FF")>>>>, <<<<S("x:0C01FF")>>,<<S("x:00")>>,<<S("x:0C0D0E0F101112131415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF000102030405060708090A")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:0C01FF")>>>>>>],
  [n |-> "common.color_24_bit", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:131")>>>>, <<<<S("i:-132")>>>>, <<<<S("i:2147483634")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483635")>>>>>>],
  [n |-> "common.color_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:color_name 14")>>>>, <<<<S("s:a14")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 14 c")>>>>>>],
  [n |-> "common.transparency", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:151")>>>>, <<<<S("i:-152")>>>>, <<<<S("i:2147483632")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483633")>>>>>>],
  [n |-> "common.__plot_style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A10","s:A10">>>>>>, <<<<<<"h:FFFFEF","s:FFFFEF">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "common.shadow_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:CastsAndReceivesShadows","i:0">>>>>>, c |-> <<<<<<<<"e:CastsAndReceivesShadows","i:0">>>>>>, <<<<<<"e:CastsShadows","i:1">>>>>>, <<<<<<"e:ReceivesShadows","i:2">>>>>>, <<<<<<"e:IgnoresShadows","i:3">>>>>>>>]>>

ECommonWr == <<
  H(5, 1, 21),
  W(1, <<330>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbEntity", 14, 21),
  W(2, <<67>>, 13, 21, TRUE, 0),
  W(3, <<8>>, 1, 21, FALSE, 0),
  W(4, <<6>>, 1, 21, TRUE, 0),
  W(5, <<38>>, 1, 13, TRUE, 0),
  W(6, <<347>>, 18, 21, FALSE, 0),
  W(7, <<62>>, 1, 21, TRUE, 0),
  W(8, <<370>>, 16, 21, FALSE, 0),
  W(9, <<48>>, 14, 21, TRUE, 0),
  W(10, <<60>>, 14, 21, TRUE, 0),
  W(11, <<92>>, 16, 21, TRUE, 0),
  W(12, <<310>>, 16, 21, FALSE, 0),
  W(13, <<420>>, 17, 21, TRUE, 0),
  W(14, <<430>>, 17, 21, FALSE, 0),
  W(15, <<440>>, 17, 21, FALSE, 0),
  W(16, <<390>>, 18, 21, FALSE, 0),
  W(17, <<284>>, 18, 21, FALSE, 0)>>

E_Face3D ==
[key |-> "E.Face3D", tstr |-> "3DFACE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 13,
 fields |-> ECommon \o <<
  [n |-> "first_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "second_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "third_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "fourth_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "edge_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbFace", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<11,21,31>>, 1, 21, FALSE, 0),
  W(20, <<12,22,32>>, 1, 21, FALSE, 0),
  W(21, <<13,23,33>>, 1, 21, FALSE, 0),
  W(22, <<70>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<11,19,1>>,<<21,19,2>>,<<31,19,3>>,<<12,20,1>>,<<22,20,2>>,<<32,20,3>>,<<13,21,1>>,<<23,21,2>>,<<33,21,3>>,<<70,22,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Solid3D ==
[key |-> "E.Solid3D", tstr |-> "3DSOLID", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 4,
 fields |-> ECommon \o <<
  [n |-> "format_version_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "custom_data", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:custom_data 19")>>>>, <<<<S("s:custom_data 19")>>,<<S("s:a19")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a19")>>,<<S("s:custom_data 19")>>>>>>],
  [n |-> "custom_data2", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:custom_data2 20")>>>>, <<<<S("s:custom_data2 20")>>,<<S("s:a20")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a20")>>,<<S("s:custom_data2 20")>>>>>>],
  [n |-> "__history_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A15","s:A15">>>>>>, <<<<<<"h:FFFFEA","s:FFFFEA">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbModelerGeometry", 1, 21),
  W(18, <<70>>, 1, 21, FALSE, 0),
  W(19, <<1>>, 1, 21, FALSE, 0),
  W(20, <<3>>, 1, 21, FALSE, 0),
  M(100, "s:AcDb3dSolid", 18, 21),
  W(21, <<350>>, 18, 21, FALSE, 0)>>,
 rd |-> <<<<70,18,1>>,<<1,19,1>>,<<3,20,1>>,<<350,21,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_ProxyEntity ==
[key |-> "E.ProxyEntity", tstr |-> "ACAD_PROXY_ENTITY", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 12,
 fields |-> ECommon \o <<
  [n |-> "proxy_entity_class_id", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:498")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:2147483629")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483630")>>>>>>],
  [n |-> "application_entity_class_id", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:500")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:2147483628")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483629")>>>>>>],
  [n |-> "graphics_data_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:2147483627")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483628")>>>>>>],
  [n |-> "graphics_data_string", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("x:1501FF")>>>>, <<<<S("x:1501FF")>>,<<S("x:00")>>,<<S("x:15161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF000102030405060708090A0B0C0D0E0F10111213")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:1501FF")>>>>>>],
  [n |-> "entity_data_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:2147483625")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483626")>>>>>>],
  [n |-> "entity_data_string", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("x:1701FF")>>>>, <<<<S("x:1701FF")>>,<<S("x:00")>>,<<S("x:1718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF000102030405060708090A0B0C0D0E0F101112131415")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:1701FF")>>>>>>],
  [n |-> "object_id_1", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:object_id_1 24")>>>>, <<<<S("s:object_id_1 24")>>,<<S("s:a24")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a24")>>,<<S("s:object_id_1 24")>>>>>>],
  [n |-> "object_id_2", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:object_id_2 25")>>>>, <<<<S("s:object_id_2 25")>>,<<S("s:a25")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a25")>>,<<S("s:object_id_2 25")>>>>>>],
  [n |-> "object_id_3", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:object_id_3 26")>>>>, <<<<S("s:object_id_3 26")>>,<<S("s:a26")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a26")>>,<<S("s:object_id_3 26")>>>>>>],
  [n |-> "object_id_4", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:object_id_4 27")>>>>, <<<<S("s:object_id_4 27")>>,<<S("s:a27")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a27")>>,<<S("s:object_id_4 27")>>>>>>],
  [n |-> "terminator", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:2147483619")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483620")>>>>>>],
  [n |-> "__object_drawing_format", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:291")>>>>, <<<<S("i:0")>>>>, <<<<S("i:2000000290")>>>>>>],
  [n |-> "original_data_format_is_dxf", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbProxyEntity", 14, 21),
  W(18, <<90>>, 1, 21, FALSE, 0),
  W(19, <<91>>, 1, 21, FALSE, 0),
  W(20, <<92>>, 1, 21, FALSE, 0),
  W(21, <<310>>, 1, 21, FALSE, 0),
  W(22, <<93>>, 1, 21, FALSE, 0),
  W(23, <<310>>, 1, 21, FALSE, 0),
  W(24, <<330>>, 1, 21, FALSE, 0),
  W(25, <<340>>, 1, 21, FALSE, 0),
  W(26, <<350>>, 1, 21, FALSE, 0),
  W(27, <<360>>, 1, 21, FALSE, 0),
  W(28, <<94>>, 1, 21, FALSE, 0),
  W(29, <<95>>, 16, 21, FALSE, 0),
  W(30, <<70>>, 16, 21, FALSE, 0)>>,
 rd |-> <<<<90,18,1>>,<<91,19,1>>,<<92,20,1>>,<<310,21,1>>,<<93,22,1>>,<<330,24,1>>,<<340,25,1>>,<<350,26,1>>,<<360,27,1>>,<<94,28,1>>,<<95,29,1>>,<<70,30,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Arc ==
[key |-> "E.Arc", tstr |-> "ARC", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 10,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "center", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "start_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "end_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:360.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbCircle", 1, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<210,220,230>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbArc", 1, 21),
  W(22, <<50>>, 1, 21, FALSE, 0),
  W(23, <<51>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<40,20,1>>,<<210,21,1>>,<<220,21,2>>,<<230,21,3>>,<<50,22,1>>,<<51,23,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_ArcAlignedText ==
[key |-> "E.ArcAlignedText", tstr |-> "ARCALIGNEDTEXT", min |-> 16, max |-> 16, nowire |-> FALSE, noread |-> FALSE, ns |-> 31,
 fields |-> ECommon \o <<
  [n |-> "text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:text 18")>>>>, <<<<S("s:a18")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 18 c")>>>>>>],
  [n |-> "font_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:font_name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "bigfont_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:bigfont_name 20")>>>>, <<<<S("s:a20")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 20 c")>>>>>>],
  [n |-> "text_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:text_style_nam 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "center_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:881.25"),S("f:891.25"),S("f:901.25")>>>>, <<<<S("f:-882.5"),S("f:-892.5"),S("f:-902.5")>>>>, <<<<S("f:880003.125"),S("f:890003.125"),S("f:900003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "arc_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "width_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "character_spacing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:261.25")>>>>, <<<<S("f:-262.5")>>>>, <<<<S("f:260003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2548828125")>>>>>>],
  [n |-> "offset_from_arc", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "right_offset", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "left_offset", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "start_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "end_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:-312.5")>>>>, <<<<S("f:310003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3037109375")>>>>>>],
  [n |-> "is_character_order_reversed", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "direction_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:331")>>>>, <<<<S("i:-332")>>>>, <<<<S("i:32734")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32735")>>>>>>],
  [n |-> "alignment_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:32733")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32734")>>>>>>],
  [n |-> "side_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:351")>>>>, <<<<S("i:-352")>>>>, <<<<S("i:32732")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32733")>>>>>>],
  [n |-> "is_bold", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_italic", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_underline", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "character_set_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:391")>>>>, <<<<S("i:-392")>>>>, <<<<S("i:32728")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32729")>>>>>>],
  [n |-> "pitch_and_family_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:401")>>>>, <<<<S("i:-402")>>>>, <<<<S("i:32727")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32728")>>>>>>],
  [n |-> "font_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TTF","i:0">>>>>>, c |-> <<<<<<<<"e:TTF","i:0">>>>>>, <<<<<<"e:SHX","i:1">>>>>>>>],
  [n |-> "color_index", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:421")>>>>, <<<<S("i:-422")>>>>, <<<<S("i:2147483605")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483606")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1721.25"),S("f:1731.25"),S("f:1741.25")>>>>, <<<<S("f:-1722.5"),S("f:-1732.5"),S("f:-1742.5")>>>>, <<<<S("f:1720003.125"),S("f:1730003.125"),S("f:1740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "wizard_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:441")>>>>, <<<<S("i:-442")>>>>, <<<<S("i:32723")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32724")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbArcAlignedText", 14, 21),
  W(18, <<1>>, 1, 21, FALSE, 0),
  W(19, <<2>>, 1, 21, FALSE, 0),
  W(20, <<3>>, 1, 21, FALSE, 0),
  W(21, <<7>>, 1, 21, FALSE, 0),
  W(22, <<10,20,30>>, 1, 21, FALSE, 0),
  W(23, <<40>>, 1, 21, FALSE, 0),
  W(24, <<41>>, 1, 21, FALSE, 0),
  W(25, <<42>>, 1, 21, FALSE, 0),
  W(26, <<43>>, 1, 21, FALSE, 0),
  W(27, <<44>>, 1, 21, FALSE, 0),
  W(28, <<45>>, 1, 21, FALSE, 0),
  W(29, <<46>>, 1, 21, FALSE, 0),
  W(30, <<50>>, 1, 21, FALSE, 0),
  W(31, <<51>>, 1, 21, FALSE, 0),
  W(32, <<70>>, 1, 21, FALSE, 0),
  W(33, <<71>>, 1, 21, FALSE, 0),
  W(34, <<72>>, 1, 21, FALSE, 0),
  W(35, <<73>>, 1, 21, FALSE, 0),
  W(36, <<74>>, 1, 21, FALSE, 0),
  W(37, <<75>>, 1, 21, FALSE, 0),
  W(38, <<76>>, 1, 21, FALSE, 0),
  W(39, <<77>>, 1, 21, FALSE, 0),
  W(40, <<78>>, 1, 21, FALSE, 0),
  W(41, <<79>>, 1, 21, FALSE, 0),
  W(42, <<90>>, 1, 21, FALSE, 0),
  W(43, <<210,220,230>>, 1, 21, TRUE, 0),
  W(44, <<280>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<1,18,1>>,<<2,19,1>>,<<3,20,1>>,<<7,21,1>>,<<10,22,1>>,<<20,22,2>>,<<30,22,3>>,<<40,23,1>>,<<41,24,1>>,<<42,25,1>>,<<43,26,1>>,<<44,27,1>>,<<45,28,1>>,<<46,29,1>>,<<50,30,1>>,<<51,31,1>>,<<70,32,1>>,<<71,33,1>>,<<72,34,1>>,<<73,35,1>>,<<74,36,1>>,<<75,37,1>>,<<76,38,1>>,<<77,39,1>>,<<78,40,1>>,<<79,41,1>>,<<90,42,1>>,<<210,43,1>>,<<220,43,2>>,<<230,43,3>>,<<280,44,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_AttributeDefinition ==
[key |-> "E.AttributeDefinition", tstr |-> "ATTDEF", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 25,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:value 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "relative_x_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "oblique_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "text_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:text_style_nam 25")>>>>, <<<<S("s:a25")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 25 c")>>>>>>],
  [n |-> "text_generation_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "horizontal_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Left","i:0">>>>>>, c |-> <<<<<<<<"e:Left","i:0">>>>>>, <<<<<<"e:Center","i:1">>>>>>, <<<<<<"e:Right","i:2">>>>>>, <<<<<<"e:Aligned","i:3">>>>>>, <<<<<<"e:Middle","i:4">>>>>>, <<<<<<"e:Fit","i:5">>>>>>>>],
  [n |-> "second_alignment_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1121.25"),S("f:1131.25"),S("f:1141.25")>>>>, <<<<S("f:-1122.5"),S("f:-1132.5"),S("f:-1142.5")>>>>, <<<<S("f:1120003.125"),S("f:1130003.125"),S("f:1140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "prompt", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:prompt 31")>>>>, <<<<S("s:a31")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 31 c")>>>>>>],
  [n |-> "text_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:text_tag 32")>>>>, <<<<S("s:a32")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 32 c")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:331")>>>>, <<<<S("i:-332")>>>>, <<<<S("i:32734")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32735")>>>>>>],
  [n |-> "field_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:32733")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32734")>>>>>>],
  [n |-> "vertical_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Baseline","i:0">>>>>>, c |-> <<<<<<<<"e:Baseline","i:0">>>>>>, <<<<<<"e:Bottom","i:1">>>>>>, <<<<<<"e:Middle","i:2">>>>>>, <<<<<<"e:Top","i:3">>>>>>>>],
  [n |-> "is_locked_in_block", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "keep_duplicate_records", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "m_text_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:MultilineAttribute","i:2">>>>>>, c |-> <<<<<<<<"e:MultilineAttribute","i:2">>>>>>, <<<<<<"e:ConstantMultilineAttributeDefinition","i:4">>>>>>>>],
  [n |-> "is_really_locked", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__secondary_attribute_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:401")>>>>, <<<<S("i:-402")>>>>, <<<<S("i:32727")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32728")>>>>>>],
  [n |-> "__secondary_attributes_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A29","s:A29">>>>>>, <<<<<<"h:A29","s:A29">>>>,<<<<"h:FFFFD6","s:FFFFD6">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFD6","s:FFFFD6">>>>,<<<<"h:A29","s:A29">>>>>>>>],
  [n |-> "alignment_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1681.25"),S("f:1691.25"),S("f:1701.25")>>>>, <<<<S("f:-1682.5"),S("f:-1692.5"),S("f:-1702.5")>>>>, <<<<S("f:1680003.125"),S("f:1690003.125"),S("f:1700003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "annotation_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:431.25")>>>>, <<<<S("f:-432.5")>>>>, <<<<S("f:430003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4208984375")>>>>>>],
  [n |-> "x_record_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:x_record_tag 44")>>>>, <<<<S("s:a44")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 44 c")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbText", 14, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<1>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbAttributeDefinition", 14, 21),
  W(22, <<50>>, 1, 21, TRUE, 0),
  W(23, <<41>>, 1, 21, TRUE, 0),
  W(24, <<51>>, 1, 21, TRUE, 0),
  W(25, <<7>>, 1, 21, TRUE, 0),
  W(26, <<71>>, 1, 21, TRUE, 0),
  W(27, <<72>>, 1, 21, TRUE, 0),
  W(28, <<11,21,31>>, 1, 21, FALSE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbAttributeDefinition", 14, 21),
  W(30, <<280>>, 19, 21, FALSE, 0),
  W(31, <<3>>, 1, 21, FALSE, 0),
  W(32, <<2>>, 1, 21, FALSE, 0),
  W(33, <<70>>, 1, 21, FALSE, 0),
  W(34, <<73>>, 1, 21, TRUE, 0),
  W(35, <<74>>, 13, 21, TRUE, 0),
  W(36, <<280>>, 18, 21, FALSE, 0),
  M(100, "s:AcDbXrecord", 18, 21),
  W(37, <<280>>, 18, 21, FALSE, 0),
  W(38, <<70>>, 18, 21, FALSE, 0),
  W(39, <<70>>, 18, 21, FALSE, 0),
  N(70, 41, "i", 18, 21),
  W(41, <<340>>, 18, 21, FALSE, 0),
  W(42, <<10,20,30>>, 18, 21, FALSE, 0),
  W(43, <<40>>, 18, 21, FALSE, 0),
  W(44, <<2>>, 18, 21, FALSE, 0)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<40,20,1>>,<<1,21,1>>,<<50,22,1>>,<<41,23,1>>,<<51,24,1>>,<<7,25,1>>,<<71,26,1>>,<<72,27,1>>,<<11,28,1>>,<<21,28,2>>,<<31,28,3>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<280,30,1>>,<<3,31,1>>,<<2,32,1>>,<<70,33,1>>,<<73,34,1>>,<<74,35,1>>,<<340,41,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Attribute ==
[key |-> "E.Attribute", tstr |-> "ATTRIB", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 24,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:value 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "attribute_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:attribute_tag 23")>>>>, <<<<S("s:a23")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 23 c")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "field_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:261.25")>>>>, <<<<S("f:-262.5")>>>>, <<<<S("f:260003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2548828125")>>>>>>],
  [n |-> "relative_x_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "oblique_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "text_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:text_style_nam 29")>>>>, <<<<S("s:a29")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 29 c")>>>>>>],
  [n |-> "text_generation_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:301")>>>>, <<<<S("i:-302")>>>>, <<<<S("i:32737")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32738")>>>>>>],
  [n |-> "horizontal_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Left","i:0">>>>>>, c |-> <<<<<<<<"e:Left","i:0">>>>>>, <<<<<<"e:Center","i:1">>>>>>, <<<<<<"e:Right","i:2">>>>>>, <<<<<<"e:Aligned","i:3">>>>>>, <<<<<<"e:Middle","i:4">>>>>>, <<<<<<"e:Fit","i:5">>>>>>>>],
  [n |-> "vertical_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Baseline","i:0">>>>>>, c |-> <<<<<<<<"e:Baseline","i:0">>>>>>, <<<<<<"e:Bottom","i:1">>>>>>, <<<<<<"e:Middle","i:2">>>>>>, <<<<<<"e:Top","i:3">>>>>>>>],
  [n |-> "second_alignment_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1321.25"),S("f:1331.25"),S("f:1341.25")>>>>, <<<<S("f:-1322.5"),S("f:-1332.5"),S("f:-1342.5")>>>>, <<<<S("f:1320003.125"),S("f:1330003.125"),S("f:1340003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "is_locked_in_block", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "keep_duplicate_records", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "m_text_flag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:MultilineAttribute","i:2">>>>>>, c |-> <<<<<<<<"e:MultilineAttribute","i:2">>>>>>, <<<<<<"e:ConstantMultilineAttributeDefinition","i:4">>>>>>>>],
  [n |-> "is_really_locked", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__secondary_attribute_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:391")>>>>, <<<<S("i:-392")>>>>, <<<<S("i:32728")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32729")>>>>>>],
  [n |-> "__secondary_attributes_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A28","s:A28">>>>>>, <<<<<<"h:A28","s:A28">>>>,<<<<"h:FFFFD7","s:FFFFD7">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFD7","s:FFFFD7">>>>,<<<<"h:A28","s:A28">>>>>>>>],
  [n |-> "alignment_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1641.25"),S("f:1651.25"),S("f:1661.25")>>>>, <<<<S("f:-1642.5"),S("f:-1652.5"),S("f:-1662.5")>>>>, <<<<S("f:1640003.125"),S("f:1650003.125"),S("f:1660003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "annotation_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:421.25")>>>>, <<<<S("f:-422.5")>>>>, <<<<S("f:420003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4111328125")>>>>>>],
  [n |-> "x_record_tag", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:x_record_tag 43")>>>>, <<<<S("s:a43")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 43 c")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbText", 14, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<1>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbAttribute", 14, 21),
  W(22, <<280>>, 19, 21, FALSE, 0),
  W(23, <<2>>, 1, 21, FALSE, 0),
  W(24, <<70>>, 1, 21, FALSE, 0),
  W(25, <<73>>, 1, 21, TRUE, 0),
  W(26, <<50>>, 1, 21, TRUE, 0),
  W(27, <<41>>, 1, 21, TRUE, 0),
  W(28, <<51>>, 1, 21, TRUE, 0),
  W(29, <<7>>, 1, 21, TRUE, 0),
  W(30, <<71>>, 1, 21, TRUE, 0),
  W(31, <<72>>, 1, 21, TRUE, 0),
  W(32, <<74>>, 13, 21, TRUE, 0),
  W(33, <<11,21,31>>, 1, 21, FALSE, 0),
  W(34, <<210,220,230>>, 1, 21, TRUE, 0),
  W(35, <<280>>, 18, 21, FALSE, 0),
  M(100, "s:AcDbXrecord", 18, 21),
  W(36, <<280>>, 18, 21, FALSE, 0),
  W(37, <<70>>, 18, 21, FALSE, 0),
  W(38, <<70>>, 18, 21, FALSE, 0),
  N(70, 40, "i", 18, 21),
  W(40, <<340>>, 18, 21, FALSE, 0),
  W(41, <<10,20,30>>, 18, 21, FALSE, 0),
  W(42, <<40>>, 18, 21, FALSE, 0),
  W(43, <<2>>, 18, 21, FALSE, 0)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<40,20,1>>,<<1,21,1>>,<<280,22,1>>,<<2,23,1>>,<<70,24,1>>,<<73,25,1>>,<<50,26,1>>,<<41,27,1>>,<<51,28,1>>,<<7,29,1>>,<<71,30,1>>,<<72,31,1>>,<<74,32,1>>,<<11,33,1>>,<<21,33,2>>,<<31,33,3>>,<<210,34,1>>,<<220,34,2>>,<<230,34,3>>,<<340,40,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Body ==
[key |-> "E.Body", tstr |-> "BODY", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 3,
 fields |-> ECommon \o <<
  [n |-> "format_version_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "custom_data", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:custom_data 19")>>>>, <<<<S("s:custom_data 19")>>,<<S("s:a19")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a19")>>,<<S("s:custom_data 19")>>>>>>],
  [n |-> "custom_data2", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:custom_data2 20")>>>>, <<<<S("s:custom_data2 20")>>,<<S("s:a20")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a20")>>,<<S("s:custom_data2 20")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbModelerGeometry", 14, 21),
  W(18, <<70>>, 1, 21, FALSE, 0),
  W(19, <<1>>, 1, 21, FALSE, 0),
  W(20, <<3>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<70,18,1>>,<<1,19,1>>,<<3,20,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Circle ==
[key |-> "E.Circle", tstr |-> "CIRCLE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 8,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "center", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbCircle", 14, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<40,20,1>>,<<210,21,1>>,<<220,21,2>>,<<230,21,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_RotatedDimension ==
[key |-> "E.RotatedDimension", tstr |-> "DIMENSION", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 31,
 fields |-> ECommon \o <<
  [n |-> "dimension_base.version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "dimension_base.block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:*MODEL_SPACE")>>>>, c |-> <<<<<<S("s:block_name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "dimension_base.definition_point_1", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.text_mid_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.attachment_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TopLeft","i:1">>>>>>, c |-> <<<<<<<<"e:TopLeft","i:1">>>>>>, <<<<<<"e:TopCenter","i:2">>>>>>, <<<<<<"e:TopRight","i:3">>>>>>, <<<<<<"e:MiddleLeft","i:4">>>>>>, <<<<<<"e:MiddleCenter","i:5">>>>>>, <<<<<<"e:MiddleRight","i:6">>>>>>, <<<<<<"e:BottomLeft","i:7">>>>>>, <<<<<<"e:BottomCenter","i:8">>>>>>, <<<<<<"e:BottomRight","i:9">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AtLeast","i:1">>>>>>, c |-> <<<<<<<<"e:AtLeast","i:1">>>>>>, <<<<<<"e:Exact","i:2">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "dimension_base.actual_measurement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "dimension_base.text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:<>")>>>>, c |-> <<<<<<S("s:text 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "dimension_base.text_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "dimension_base.horizontal_direction_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "dimension_base.normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_styl 30")>>>>, <<<<S("s:a30")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 30 c")>>>>>>],
  [n |-> "dimension_base.is_block_reference_referenced_by_this_block_only", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_ordinate_x_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_at_user_defined_location", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "definition_point_2", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1401.25"),S("f:1411.25"),S("f:1421.25")>>>>, <<<<S("f:-1402.5"),S("f:-1412.5"),S("f:-1422.5")>>>>, <<<<S("f:1400003.125"),S("f:1410003.125"),S("f:1420003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "definition_point_3", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25")>>>>, <<<<S("f:-1442.5"),S("f:-1452.5"),S("f:-1462.5")>>>>, <<<<S("f:1440003.125"),S("f:1450003.125"),S("f:1460003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:371.25")>>>>, <<<<S("f:-372.5")>>>>, <<<<S("f:370003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3623046875")>>>>>>],
  [n |-> "extension_line_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:381.25")>>>>, <<<<S("f:-382.5")>>>>, <<<<S("f:380003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3720703125")>>>>>>],
  [n |-> "dimension_base.dimension_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Aligned","i:1">>>>>>, c |-> <<<<<<<<"e:RotatedHorizontalOrVertical","i:0">>>>>>, <<<<<<"e:Aligned","i:1">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbDimension", 14, 21),
  W(18, <<280>>, 19, 21, FALSE, 0),
  W(19, <<2>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  D(39, 31, 32, 33),
  W(22, <<71>>, 16, 21, FALSE, 0),
  W(23, <<72>>, 16, 21, TRUE, 0),
  W(24, <<41>>, 16, 21, TRUE, 0),
  W(25, <<42>>, 16, 21, TRUE, 0),
  W(26, <<1>>, 1, 21, FALSE, 0),
  W(27, <<53>>, 1, 21, TRUE, 0),
  W(28, <<51>>, 1, 21, TRUE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<3>>, 13, 21, FALSE, 0),
  M(100, "s:AcDbAlignedDimension", 14, 21),
  W(34, <<12,22,32>>, 1, 21, FALSE, 0),
  W(35, <<13,23,33>>, 1, 21, FALSE, 0),
  W(36, <<14,24,34>>, 1, 21, FALSE, 0),
  W(37, <<50>>, 1, 21, FALSE, 0),
  W(38, <<52>>, 1, 21, FALSE, 0),
  M(100, "s:AcDbRotatedDimension", 14, 21)>>,
 rd |-> <<<<280,18,1>>,<<2,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<71,22,1>>,<<72,23,1>>,<<41,24,1>>,<<42,25,1>>,<<1,26,1>>,<<53,27,1>>,<<51,28,1>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<3,30,1>>,<<70,31,1>>,<<12,34,1>>,<<22,34,2>>,<<32,34,3>>,<<13,35,1>>,<<23,35,2>>,<<33,35,3>>,<<14,36,1>>,<<24,36,2>>,<<34,36,3>>,<<50,37,1>>,<<52,38,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_RadialDimension ==
[key |-> "E.RadialDimension", tstr |-> "DIMENSION", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 24,
 fields |-> ECommon \o <<
  [n |-> "dimension_base.version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "dimension_base.block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:*MODEL_SPACE")>>>>, c |-> <<<<<<S("s:block_name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "dimension_base.definition_point_1", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.text_mid_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.attachment_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TopLeft","i:1">>>>>>, c |-> <<<<<<<<"e:TopLeft","i:1">>>>>>, <<<<<<"e:TopCenter","i:2">>>>>>, <<<<<<"e:TopRight","i:3">>>>>>, <<<<<<"e:MiddleLeft","i:4">>>>>>, <<<<<<"e:MiddleCenter","i:5">>>>>>, <<<<<<"e:MiddleRight","i:6">>>>>>, <<<<<<"e:BottomLeft","i:7">>>>>>, <<<<<<"e:BottomCenter","i:8">>>>>>, <<<<<<"e:BottomRight","i:9">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AtLeast","i:1">>>>>>, c |-> <<<<<<<<"e:AtLeast","i:1">>>>>>, <<<<<<"e:Exact","i:2">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "dimension_base.actual_measurement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "dimension_base.text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:<>")>>>>, c |-> <<<<<<S("s:text 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "dimension_base.text_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "dimension_base.horizontal_direction_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "dimension_base.normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_styl 30")>>>>, <<<<S("s:a30")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 30 c")>>>>>>],
  [n |-> "dimension_base.is_block_reference_referenced_by_this_block_only", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_ordinate_x_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_at_user_defined_location", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "definition_point_2", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "leader_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:351.25")>>>>, <<<<S("f:-352.5")>>>>, <<<<S("f:350003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3427734375")>>>>>>],
  [n |-> "dimension_base.dimension_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Aligned","i:1">>>>>>, c |-> <<<<<<<<"e:Radius","i:4">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbDimension", 14, 21),
  W(18, <<280>>, 19, 21, FALSE, 0),
  W(19, <<2>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  D(36, 31, 32, 33),
  W(22, <<71>>, 16, 21, FALSE, 0),
  W(23, <<72>>, 16, 21, TRUE, 0),
  W(24, <<41>>, 16, 21, TRUE, 0),
  W(25, <<42>>, 16, 21, TRUE, 0),
  W(26, <<1>>, 1, 21, FALSE, 0),
  W(27, <<53>>, 1, 21, TRUE, 0),
  W(28, <<51>>, 1, 21, TRUE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<3>>, 13, 21, FALSE, 0),
  M(100, "s:AcDbRadialDimension", 1, 21),
  W(34, <<15,25,35>>, 1, 21, FALSE, 0),
  W(35, <<40>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,18,1>>,<<2,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<71,22,1>>,<<72,23,1>>,<<41,24,1>>,<<42,25,1>>,<<1,26,1>>,<<53,27,1>>,<<51,28,1>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<3,30,1>>,<<70,31,1>>,<<15,34,1>>,<<25,34,2>>,<<35,34,3>>,<<40,35,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_DiameterDimension ==
[key |-> "E.DiameterDimension", tstr |-> "DIMENSION", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 24,
 fields |-> ECommon \o <<
  [n |-> "dimension_base.version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "dimension_base.block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:*MODEL_SPACE")>>>>, c |-> <<<<<<S("s:block_name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "dimension_base.definition_point_1", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.text_mid_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.attachment_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TopLeft","i:1">>>>>>, c |-> <<<<<<<<"e:TopLeft","i:1">>>>>>, <<<<<<"e:TopCenter","i:2">>>>>>, <<<<<<"e:TopRight","i:3">>>>>>, <<<<<<"e:MiddleLeft","i:4">>>>>>, <<<<<<"e:MiddleCenter","i:5">>>>>>, <<<<<<"e:MiddleRight","i:6">>>>>>, <<<<<<"e:BottomLeft","i:7">>>>>>, <<<<<<"e:BottomCenter","i:8">>>>>>, <<<<<<"e:BottomRight","i:9">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AtLeast","i:1">>>>>>, c |-> <<<<<<<<"e:AtLeast","i:1">>>>>>, <<<<<<"e:Exact","i:2">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "dimension_base.actual_measurement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "dimension_base.text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:<>")>>>>, c |-> <<<<<<S("s:text 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "dimension_base.text_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "dimension_base.horizontal_direction_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "dimension_base.normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_styl 30")>>>>, <<<<S("s:a30")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 30 c")>>>>>>],
  [n |-> "dimension_base.is_block_reference_referenced_by_this_block_only", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_ordinate_x_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_at_user_defined_location", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "definition_point_2", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "leader_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:351.25")>>>>, <<<<S("f:-352.5")>>>>, <<<<S("f:350003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3427734375")>>>>>>],
  [n |-> "dimension_base.dimension_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Aligned","i:1">>>>>>, c |-> <<<<<<<<"e:Diameter","i:3">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbDimension", 14, 21),
  W(18, <<280>>, 19, 21, FALSE, 0),
  W(19, <<2>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  D(36, 31, 32, 33),
  W(22, <<71>>, 16, 21, FALSE, 0),
  W(23, <<72>>, 16, 21, TRUE, 0),
  W(24, <<41>>, 16, 21, TRUE, 0),
  W(25, <<42>>, 16, 21, TRUE, 0),
  W(26, <<1>>, 1, 21, FALSE, 0),
  W(27, <<53>>, 1, 21, TRUE, 0),
  W(28, <<51>>, 1, 21, TRUE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<3>>, 13, 21, FALSE, 0),
  M(100, "s:AcDbDiametricDimension", 1, 21),
  W(34, <<15,25,35>>, 1, 21, FALSE, 0),
  W(35, <<40>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,18,1>>,<<2,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<71,22,1>>,<<72,23,1>>,<<41,24,1>>,<<42,25,1>>,<<1,26,1>>,<<53,27,1>>,<<51,28,1>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<3,30,1>>,<<70,31,1>>,<<15,34,1>>,<<25,34,2>>,<<35,34,3>>,<<40,35,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_AngularThreePointDimension ==
[key |-> "E.AngularThreePointDimension", tstr |-> "DIMENSION", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 32,
 fields |-> ECommon \o <<
  [n |-> "dimension_base.version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "dimension_base.block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:*MODEL_SPACE")>>>>, c |-> <<<<<<S("s:block_name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "dimension_base.definition_point_1", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.text_mid_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.attachment_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TopLeft","i:1">>>>>>, c |-> <<<<<<<<"e:TopLeft","i:1">>>>>>, <<<<<<"e:TopCenter","i:2">>>>>>, <<<<<<"e:TopRight","i:3">>>>>>, <<<<<<"e:MiddleLeft","i:4">>>>>>, <<<<<<"e:MiddleCenter","i:5">>>>>>, <<<<<<"e:MiddleRight","i:6">>>>>>, <<<<<<"e:BottomLeft","i:7">>>>>>, <<<<<<"e:BottomCenter","i:8">>>>>>, <<<<<<"e:BottomRight","i:9">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AtLeast","i:1">>>>>>, c |-> <<<<<<<<"e:AtLeast","i:1">>>>>>, <<<<<<"e:Exact","i:2">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "dimension_base.actual_measurement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "dimension_base.text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:<>")>>>>, c |-> <<<<<<S("s:text 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "dimension_base.text_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "dimension_base.horizontal_direction_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "dimension_base.normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_styl 30")>>>>, <<<<S("s:a30")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 30 c")>>>>>>],
  [n |-> "dimension_base.is_block_reference_referenced_by_this_block_only", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_ordinate_x_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_at_user_defined_location", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "definition_point_2", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "definition_point_3", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1401.25"),S("f:1411.25"),S("f:1421.25")>>>>, <<<<S("f:-1402.5"),S("f:-1412.5"),S("f:-1422.5")>>>>, <<<<S("f:1400003.125"),S("f:1410003.125"),S("f:1420003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "definition_point_4", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25")>>>>, <<<<S("f:-1442.5"),S("f:-1452.5"),S("f:-1462.5")>>>>, <<<<S("f:1440003.125"),S("f:1450003.125"),S("f:1460003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "definition_point_5", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1481.25"),S("f:1491.25"),S("f:1501.25")>>>>, <<<<S("f:-1482.5"),S("f:-1492.5"),S("f:-1502.5")>>>>, <<<<S("f:1480003.125"),S("f:1490003.125"),S("f:1500003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Aligned","i:1">>>>>>, c |-> <<<<<<<<"e:AngularThreePoint","i:5">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbDimension", 14, 21),
  W(18, <<280>>, 19, 21, FALSE, 0),
  W(19, <<2>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  D(38, 31, 32, 33),
  W(22, <<71>>, 16, 21, FALSE, 0),
  W(23, <<72>>, 16, 21, TRUE, 0),
  W(24, <<41>>, 16, 21, TRUE, 0),
  W(25, <<42>>, 16, 21, TRUE, 0),
  W(26, <<1>>, 1, 21, FALSE, 0),
  W(27, <<53>>, 1, 21, TRUE, 0),
  W(28, <<51>>, 1, 21, TRUE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<3>>, 13, 21, FALSE, 0),
  M(100, "s:AcDb3PointAngularDimension", 1, 21),
  W(34, <<13,23,33>>, 1, 21, FALSE, 0),
  W(35, <<14,24,34>>, 1, 21, FALSE, 0),
  W(36, <<15,25,35>>, 1, 21, FALSE, 0),
  W(37, <<16,26,36>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,18,1>>,<<2,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<71,22,1>>,<<72,23,1>>,<<41,24,1>>,<<42,25,1>>,<<1,26,1>>,<<53,27,1>>,<<51,28,1>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<3,30,1>>,<<70,31,1>>,<<13,34,1>>,<<23,34,2>>,<<33,34,3>>,<<14,35,1>>,<<24,35,2>>,<<34,35,3>>,<<15,36,1>>,<<25,36,2>>,<<35,36,3>>,<<16,37,1>>,<<26,37,2>>,<<36,37,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_OrdinateDimension ==
[key |-> "E.OrdinateDimension", tstr |-> "DIMENSION", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 26,
 fields |-> ECommon \o <<
  [n |-> "dimension_base.version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:R2010","i:0">>>>>>, c |-> <<<<<<<<"e:R2010","i:0">>>>>>>>],
  [n |-> "dimension_base.block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:*MODEL_SPACE")>>>>, c |-> <<<<<<S("s:block_name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "dimension_base.definition_point_1", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.text_mid_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.attachment_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TopLeft","i:1">>>>>>, c |-> <<<<<<<<"e:TopLeft","i:1">>>>>>, <<<<<<"e:TopCenter","i:2">>>>>>, <<<<<<"e:TopRight","i:3">>>>>>, <<<<<<"e:MiddleLeft","i:4">>>>>>, <<<<<<"e:MiddleCenter","i:5">>>>>>, <<<<<<"e:MiddleRight","i:6">>>>>>, <<<<<<"e:BottomLeft","i:7">>>>>>, <<<<<<"e:BottomCenter","i:8">>>>>>, <<<<<<"e:BottomRight","i:9">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AtLeast","i:1">>>>>>, c |-> <<<<<<<<"e:AtLeast","i:1">>>>>>, <<<<<<"e:Exact","i:2">>>>>>>>],
  [n |-> "dimension_base.text_line_spacing_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "dimension_base.actual_measurement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "dimension_base.text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:<>")>>>>, c |-> <<<<<<S("s:text 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "dimension_base.text_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "dimension_base.horizontal_direction_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "dimension_base.normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_styl 30")>>>>, <<<<S("s:a30")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 30 c")>>>>>>],
  [n |-> "dimension_base.is_block_reference_referenced_by_this_block_only", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_ordinate_x_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_base.is_at_user_defined_location", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "definition_point_2", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "definition_point_3", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1401.25"),S("f:1411.25"),S("f:1421.25")>>>>, <<<<S("f:-1402.5"),S("f:-1412.5"),S("f:-1422.5")>>>>, <<<<S("f:1400003.125"),S("f:1410003.125"),S("f:1420003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "dimension_base.dimension_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Aligned","i:1">>>>>>, c |-> <<<<<<<<"e:Ordinate","i:6">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbDimension", 14, 21),
  W(18, <<280>>, 19, 21, FALSE, 0),
  W(19, <<2>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  D(36, 31, 32, 33),
  W(22, <<71>>, 16, 21, FALSE, 0),
  W(23, <<72>>, 16, 21, TRUE, 0),
  W(24, <<41>>, 16, 21, TRUE, 0),
  W(25, <<42>>, 16, 21, TRUE, 0),
  W(26, <<1>>, 1, 21, FALSE, 0),
  W(27, <<53>>, 1, 21, TRUE, 0),
  W(28, <<51>>, 1, 21, TRUE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<3>>, 13, 21, FALSE, 0),
  M(100, "s:AcDbOrdinateDimension", 1, 21),
  W(34, <<13,23,33>>, 1, 21, FALSE, 0),
  W(35, <<14,24,34>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<280,18,1>>,<<2,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<71,22,1>>,<<72,23,1>>,<<41,24,1>>,<<42,25,1>>,<<1,26,1>>,<<53,27,1>>,<<51,28,1>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<3,30,1>>,<<70,31,1>>,<<13,34,1>>,<<23,34,2>>,<<33,34,3>>,<<14,35,1>>,<<24,35,2>>,<<34,35,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Ellipse ==
[key |-> "E.Ellipse", tstr |-> "ELLIPSE", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 12,
 fields |-> ECommon \o <<
  [n |-> "center", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "major_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "minor_axis_ratio", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "start_parameter", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "end_parameter", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:6.283185307179586")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbEllipse", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<11,21,31>>, 1, 21, FALSE, 0),
  W(20, <<210,220,230>>, 1, 21, TRUE, 0),
  W(21, <<40>>, 1, 21, FALSE, 0),
  W(22, <<41>>, 1, 21, FALSE, 0),
  W(23, <<42>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<11,19,1>>,<<21,19,2>>,<<31,19,3>>,<<210,20,1>>,<<220,20,2>>,<<230,20,3>>,<<40,21,1>>,<<41,22,1>>,<<42,23,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Helix ==
[key |-> "E.Helix", tstr |-> "HELIX", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 16,
 fields |-> ECommon \o <<
  [n |-> "major_release_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:2147483629")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483630")>>>>>>],
  [n |-> "maintainence_release_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:2147483628")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483629")>>>>>>],
  [n |-> "axis_base_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "start_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "axis_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:881.25"),S("f:891.25"),S("f:901.25")>>>>, <<<<S("f:-882.5"),S("f:-892.5"),S("f:-902.5")>>>>, <<<<S("f:880003.125"),S("f:890003.125"),S("f:900003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "number_of_turns", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "turn_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "is_right_handed", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "constraint", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:ConstrainTurnHeight","i:0">>>>>>, c |-> <<<<<<<<"e:ConstrainTurnHeight","i:0">>>>>>, <<<<<<"e:ConstrainTurns","i:1">>>>>>, <<<<<<"e:ConstrainHeight","i:2">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbHelix", 14, 21),
  W(18, <<90>>, 1, 21, FALSE, 0),
  W(19, <<91>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  W(22, <<12,22,32>>, 1, 21, FALSE, 0),
  W(23, <<40>>, 1, 21, FALSE, 0),
  W(24, <<41>>, 1, 21, FALSE, 0),
  W(25, <<42>>, 1, 21, FALSE, 0),
  W(26, <<290>>, 1, 21, FALSE, 0),
  W(27, <<280>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,18,1>>,<<91,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<12,22,1>>,<<22,22,2>>,<<32,22,3>>,<<40,23,1>>,<<41,24,1>>,<<42,25,1>>,<<290,26,1>>,<<280,27,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Image ==
[key |-> "E.Image", tstr |-> "IMAGE", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 22,
 fields |-> ECommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:2147483629")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483630")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "u_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "v_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "image_size", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:881.25"),S("f:891.25")>>>>, <<<<S("f:-882.5"),S("f:-892.5")>>>>, <<<<S("f:880003.125"),S("f:890003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "image_def_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:image_def_refe 23")>>>>, <<<<S("s:a23")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 23 c")>>>>>>],
  [n |-> "display_options_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "use_clipping", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "brightness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:50")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "contrast", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:50")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "fade", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:32739")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32740")>>>>>>],
  [n |-> "image_def_reactor_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:image_def_reac 29")>>>>, <<<<S("s:a29")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 29 c")>>>>>>],
  [n |-> "clipping_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Rectangular","i:1">>>>>>, c |-> <<<<<<<<"e:Rectangular","i:1">>>>>>, <<<<<<"e:Polygonal","i:2">>>>>>>>],
  [n |-> "clipping_vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:311")>>>>, <<<<S("i:-312")>>>>, <<<<S("i:2147483616")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483617")>>>>>>],
  [n |-> "__clipping_vertices_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:321.25")>>,<<S("f:-322.5")>>,<<S("f:320003.125")>>>>, <<>>, <<<<S("f:-322.5")>>,<<S("f:321.25")>>>>>>],
  [n |-> "__clipping_vertices_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:331.25")>>,<<S("f:-332.5")>>,<<S("f:330003.125")>>>>, <<>>, <<<<S("f:-332.5")>>,<<S("f:331.25")>>>>>>],
  [n |-> "clipping_vertices", ks |-> <<"x","y">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25")>>>>, <<<<S("f:1361.25"),S("f:1371.25")>>,<<S("f:-1362.5"),S("f:-1372.5")>>,<<S("f:1360003.125"),S("f:1370003.125")>>>>, <<>>, <<<<S("f:-1362.5"),S("f:-1372.5")>>,<<S("f:1361.25"),S("f:1371.25")>>>>>>],
  [n |-> "is_inside_clipping", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbRasterImage", 1, 21),
  W(18, <<90>>, 1, 21, FALSE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<11,21,31>>, 1, 21, FALSE, 0),
  W(21, <<12,22,32>>, 1, 21, FALSE, 0),
  W(22, <<13,23>>, 1, 21, FALSE, 0),
  W(23, <<340>>, 1, 21, FALSE, 0),
  W(24, <<70>>, 1, 21, FALSE, 0),
  W(25, <<280>>, 1, 21, FALSE, 0),
  W(26, <<281>>, 1, 21, FALSE, 0),
  W(27, <<282>>, 1, 21, FALSE, 0),
  W(28, <<283>>, 1, 21, FALSE, 0),
  W(29, <<360>>, 1, 21, FALSE, 0),
  W(30, <<71>>, 1, 21, FALSE, 0),
  N(91, 34, "i", 1, 21),
  W(34, <<14,24>>, 1, 21, FALSE, 0),
  W(35, <<290>>, 19, 21, FALSE, 0)>>,
 rd |-> <<<<90,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<11,20,1>>,<<21,20,2>>,<<31,20,3>>,<<12,21,1>>,<<22,21,2>>,<<32,21,3>>,<<13,22,1>>,<<23,22,2>>,<<340,23,1>>,<<70,24,1>>,<<280,25,1>>,<<281,26,1>>,<<282,27,1>>,<<283,28,1>>,<<360,29,1>>,<<71,30,1>>,<<91,31,1>>,<<14,34,1>>,<<24,34,2>>,<<290,35,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Insert ==
[key |-> "E.Insert", tstr |-> "INSERT", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 16,
 fields |-> ECommon \o <<
  [n |-> "__seqend_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__has_attributes", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:name 20")>>>>, <<<<S("s:a20")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 20 c")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "x_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "y_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "z_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "column_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "row_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "column_spacing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "row_spacing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>, <<<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>>>, <<<<S("f:1200003.125"),S("f:1210003.125"),S("f:1220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbBlockReference", 14, 21),
  W(20, <<2>>, 1, 21, FALSE, 0),
  W(21, <<10,20,30>>, 1, 21, FALSE, 0),
  W(22, <<41>>, 1, 21, TRUE, 0),
  W(23, <<42>>, 1, 21, TRUE, 0),
  W(24, <<43>>, 1, 21, TRUE, 0),
  W(25, <<50>>, 1, 21, TRUE, 0),
  W(26, <<70>>, 1, 21, TRUE, 0),
  W(27, <<71>>, 1, 21, TRUE, 0),
  W(28, <<44>>, 1, 21, TRUE, 0),
  W(29, <<45>>, 1, 21, TRUE, 0),
  W(30, <<210,220,230>>, 13, 21, FALSE, 0)>>,
 rd |-> <<<<66,19,1>>,<<2,20,1>>,<<10,21,1>>,<<20,21,2>>,<<30,21,3>>,<<41,22,1>>,<<42,23,1>>,<<43,24,1>>,<<50,25,1>>,<<70,26,1>>,<<71,27,1>>,<<44,28,1>>,<<45,29,1>>,<<210,30,1>>,<<220,30,2>>,<<230,30,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Leader ==
[key |-> "E.Leader", tstr |-> "LEADER", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 23,
 fields |-> ECommon \o <<
  [n |-> "dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_styl 18")>>>>, <<<<S("s:a18")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 18 c")>>>>>>],
  [n |-> "use_arrowheads", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "path_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:StraightLineSegments","i:0">>>>>>, c |-> <<<<<<<<"e:StraightLineSegments","i:0">>>>>>, <<<<<<"e:Spline","i:1">>>>>>>>],
  [n |-> "annotation_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NoAnnotation","i:3">>>>>>, c |-> <<<<<<<<"e:WithTextAnnotation","i:0">>>>>>, <<<<<<"e:WithToleranceAnnotation","i:1">>>>>>, <<<<<<"e:WithBlockReferenceAnnotation","i:2">>>>>>, <<<<<<"e:NoAnnotation","i:3">>>>>>>>],
  [n |-> "hookline_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:OppositeFromHorizontalVector","i:0">>>>>>, c |-> <<<<<<<<"e:OppositeFromHorizontalVector","i:0">>>>>>, <<<<<<"e:SameAsHorizontalVector","i:1">>>>>>>>],
  [n |-> "use_hookline", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "text_annotation_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "text_annotation_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "__vertices_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:271.25")>>,<<S("f:-272.5")>>,<<S("f:270003.125")>>>>, <<>>, <<<<S("f:-272.5")>>,<<S("f:271.25")>>>>>>],
  [n |-> "__vertices_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:281.25")>>,<<S("f:-282.5")>>,<<S("f:280003.125")>>>>, <<>>, <<<<S("f:-282.5")>>,<<S("f:281.25")>>>>>>],
  [n |-> "__vertices_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "vertices", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>, <<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>,<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>,<<S("f:1200003.125"),S("f:1210003.125"),S("f:1220003.125")>>>>, <<>>, <<<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>,<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>>>],
  [n |-> "override_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:32")>>>>, <<<<S("i:256")>>>>, <<<<S("i:82")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "associated_annotation_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:associated_ann 32")>>>>, <<<<S("s:a32")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 32 c")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1321.25"),S("f:1331.25"),S("f:1341.25")>>>>, <<<<S("f:-1322.5"),S("f:-1332.5"),S("f:-1342.5")>>>>, <<<<S("f:1320003.125"),S("f:1330003.125"),S("f:1340003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "right", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>>>, <<<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "block_offset", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1401.25"),S("f:1411.25"),S("f:1421.25")>>>>, <<<<S("f:-1402.5"),S("f:-1412.5"),S("f:-1422.5")>>>>, <<<<S("f:1400003.125"),S("f:1410003.125"),S("f:1420003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "annotation_offset", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25")>>>>, <<<<S("f:-1442.5"),S("f:-1452.5"),S("f:-1462.5")>>>>, <<<<S("f:1440003.125"),S("f:1450003.125"),S("f:1460003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbLeader", 1, 21),
  W(18, <<3>>, 1, 21, FALSE, 0),
  W(19, <<71>>, 1, 21, FALSE, 0),
  W(20, <<72>>, 1, 21, FALSE, 0),
  W(21, <<73>>, 1, 21, FALSE, 0),
  W(22, <<74>>, 1, 21, FALSE, 0),
  W(23, <<75>>, 1, 21, FALSE, 0),
  W(24, <<40>>, 1, 21, FALSE, 0),
  W(25, <<41>>, 1, 21, FALSE, 0),
  N(76, 30, "i", 1, 21),
  W(30, <<10,20,30>>, 1, 21, FALSE, 0),
  W(31, <<77>>, 1, 21, TRUE, 0),
  W(32, <<340>>, 1, 21, FALSE, 0),
  W(33, <<210,220,230>>, 1, 21, FALSE, 0),
  W(34, <<211,221,231>>, 1, 21, FALSE, 0),
  W(35, <<212,222,232>>, 1, 21, FALSE, 0),
  W(36, <<213,223,233>>, 15, 21, FALSE, 0)>>,
 rd |-> <<<<3,18,1>>,<<71,19,1>>,<<72,20,1>>,<<73,21,1>>,<<74,22,1>>,<<75,23,1>>,<<40,24,1>>,<<41,25,1>>,<<76,26,1>>,<<10,30,1>>,<<20,30,2>>,<<30,30,3>>,<<77,31,1>>,<<340,32,1>>,<<210,33,1>>,<<220,33,2>>,<<230,33,3>>,<<211,34,1>>,<<221,34,2>>,<<231,34,3>>,<<212,35,1>>,<<222,35,2>>,<<232,35,3>>,<<213,36,1>>,<<223,36,2>>,<<233,36,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Light ==
[key |-> "E.Light", tstr |-> "LIGHT", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 22,
 fields |-> ECommon \o <<
  [n |-> "version_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:2147483629")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483630")>>>>>>],
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:name 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "light_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Distant","i:1">>>>>>, c |-> <<<<<<<<"e:Distant","i:1">>>>>>, <<<<<<"e:Point","i:2">>>>>>, <<<<<<"e:Spot","i:3">>>>>>>>],
  [n |-> "is_active", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "plot_glyph", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "intensity", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "position", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:961.25"),S("f:971.25"),S("f:981.25")>>>>, <<<<S("f:-962.5"),S("f:-972.5"),S("f:-982.5")>>>>, <<<<S("f:960003.125"),S("f:970003.125"),S("f:980003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "target_location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1001.25"),S("f:1011.25"),S("f:1021.25")>>>>, <<<<S("f:-1002.5"),S("f:-1012.5"),S("f:-1022.5")>>>>, <<<<S("f:1000003.125"),S("f:1010003.125"),S("f:1020003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "attentuation_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:InverseLinear","i:1">>>>>>, <<<<<<"e:InverseSquare","i:2">>>>>>>>],
  [n |-> "use_attenuation_limits", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "attenuation_start_limit", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "attenuation_end_limit", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "hotspot_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "falloff_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:-312.5")>>>>, <<<<S("f:310003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3037109375")>>>>>>],
  [n |-> "cast_shadows", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "shadow_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:RayTraced","i:0">>>>>>, c |-> <<<<<<<<"e:RayTraced","i:0">>>>>>, <<<<<<"e:ShadowMaps","i:1">>>>>>>>],
  [n |-> "shadow_map_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:2147483613")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483614")>>>>>>],
  [n |-> "shadow_map_softness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:351")>>>>, <<<<S("i:-352")>>>>, <<<<S("i:32732")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32733")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbLight", 14, 21),
  W(18, <<90>>, 1, 21, FALSE, 0),
  W(19, <<1>>, 1, 21, FALSE, 0),
  W(20, <<70>>, 1, 21, FALSE, 0),
  W(21, <<290>>, 1, 21, FALSE, 0),
  W(22, <<291>>, 1, 21, FALSE, 0),
  W(23, <<40>>, 1, 21, FALSE, 0),
  W(24, <<10,20,30>>, 1, 21, FALSE, 0),
  W(25, <<11,21,31>>, 1, 21, FALSE, 0),
  W(26, <<72>>, 1, 21, FALSE, 0),
  W(27, <<292>>, 1, 21, FALSE, 0),
  W(28, <<41>>, 1, 21, FALSE, 0),
  W(29, <<42>>, 1, 21, FALSE, 0),
  W(30, <<50>>, 1, 21, FALSE, 0),
  W(31, <<51>>, 1, 21, FALSE, 0),
  W(32, <<293>>, 1, 21, FALSE, 0),
  W(33, <<73>>, 1, 21, FALSE, 0),
  W(34, <<91>>, 1, 21, FALSE, 0),
  W(35, <<280>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,18,1>>,<<1,19,1>>,<<70,20,1>>,<<290,21,1>>,<<291,22,1>>,<<40,23,1>>,<<10,24,1>>,<<20,24,2>>,<<30,24,3>>,<<11,25,1>>,<<21,25,2>>,<<31,25,3>>,<<72,26,1>>,<<292,27,1>>,<<41,28,1>>,<<42,29,1>>,<<50,30,1>>,<<51,31,1>>,<<293,32,1>>,<<73,33,1>>,<<91,34,1>>,<<280,35,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Line ==
[key |-> "E.Line", tstr |-> "LINE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 10,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "p1", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "p2", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbLine", 14, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<11,21,31>>, 1, 21, FALSE, 0),
  W(21, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<11,20,1>>,<<21,20,2>>,<<31,20,3>>,<<210,21,1>>,<<220,21,2>>,<<230,21,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_LwPolyline ==
[key |-> "E.LwPolyline", tstr |-> "LWPOLYLINE", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 12,
 fields |-> ECommon \o <<
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "constant_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "vertices", ks |-> <<"x","y","id","starting_width","ending_width","bulge">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("i:861"),S("f:871.25"),S("f:881.25"),S("f:891.25")>>>>, <<<<S("f:841.25"),S("f:851.25"),S("i:861"),S("f:871.25"),S("f:881.25"),S("f:891.25")>>,<<S("f:-842.5"),S("f:-852.5"),S("i:-862"),S("f:-872.5"),S("f:-882.5"),S("f:-892.5")>>,<<S("f:840003.125"),S("f:850003.125"),S("i:2147483561"),S("f:870003.125"),S("f:880003.125"),S("f:890003.125")>>>>, <<>>, <<<<S("f:-842.5"),S("f:-852.5"),S("i:-862"),S("f:-872.5"),S("f:-882.5"),S("f:-892.5")>>,<<S("f:841.25"),S("f:851.25"),S("i:861"),S("f:871.25"),S("f:881.25"),S("f:891.25")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:881.25"),S("f:891.25"),S("f:901.25")>>>>, <<<<S("f:-882.5"),S("f:-892.5"),S("f:-902.5")>>>>, <<<<S("f:880003.125"),S("f:890003.125"),S("f:900003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbPolyline", 1, 21),
  N(90, 21, "i", 1, 21),
  W(18, <<70>>, 1, 21, FALSE, 0),
  W(19, <<43>>, 1, 21, TRUE, 0),
  W(5, <<38>>, 1, 21, TRUE, 0),
  W(20, <<39>>, 1, 21, TRUE, 0),
  X(21, <<<<10,1,1,"">>,<<20,2,1,"">>,<<91,3,20,"">>,<<40,4,1,"f:0.0">>,<<41,5,1,"f:0.0">>,<<42,6,1,"f:0.0">>>>, 1, 21, FALSE, 0),
  W(22, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<70,18,1>>,<<43,19,1>>,<<39,20,1>>,<<10,21,1>>,<<20,21,2>>,<<91,21,3>>,<<40,21,4>>,<<41,21,5>>,<<42,21,6>>,<<210,22,1>>,<<220,22,2>>,<<230,22,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_MLine ==
[key |-> "E.MLine", tstr |-> "MLINE", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 17,
 fields |-> ECommon \o <<
  [n |-> "style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:style_name 18")>>>>, <<<<S("s:a18")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 18 c")>>>>>>],
  [n |-> "__style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A13","s:A13">>>>>>, <<<<<<"h:FFFFEC","s:FFFFEC">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Top","i:0">>>>>>, c |-> <<<<<<<<"e:Top","i:0">>>>>>, <<<<<<"e:Middle","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>],
  [n |-> "__vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:32744")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32745")>>>>>>],
  [n |-> "style_element_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "start_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1001.25"),S("f:1011.25"),S("f:1021.25")>>>>, <<<<S("f:-1002.5"),S("f:-1012.5"),S("f:-1022.5")>>>>, <<<<S("f:1000003.125"),S("f:1010003.125"),S("f:1020003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1041.25"),S("f:1051.25"),S("f:1061.25")>>>>, <<<<S("f:-1042.5"),S("f:-1052.5"),S("f:-1062.5")>>>>, <<<<S("f:1040003.125"),S("f:1050003.125"),S("f:1060003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "__vertices_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:271.25")>>,<<S("f:-272.5")>>,<<S("f:270003.125")>>>>, <<>>, <<<<S("f:-272.5")>>,<<S("f:271.25")>>>>>>],
  [n |-> "__vertices_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:281.25")>>,<<S("f:-282.5")>>,<<S("f:280003.125")>>>>, <<>>, <<<<S("f:-282.5")>>,<<S("f:281.25")>>>>>>],
  [n |-> "__vertices_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "vertices", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>, <<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>,<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>,<<S("f:1200003.125"),S("f:1210003.125"),S("f:1220003.125")>>>>, <<>>, <<<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>,<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>>>],
  [n |-> "__segment_direction_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:311.25")>>,<<S("f:-312.5")>>,<<S("f:310003.125")>>>>, <<>>, <<<<S("f:-312.5")>>,<<S("f:311.25")>>>>>>],
  [n |-> "__segment_direction_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:321.25")>>,<<S("f:-322.5")>>,<<S("f:320003.125")>>>>, <<>>, <<<<S("f:-322.5")>>,<<S("f:321.25")>>>>>>],
  [n |-> "__segment_direction_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:331.25")>>,<<S("f:-332.5")>>,<<S("f:330003.125")>>>>, <<>>, <<<<S("f:-332.5")>>,<<S("f:331.25")>>>>>>],
  [n |-> "segment_directions", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>,<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>,<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>,<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>>>],
  [n |-> "__miter_direction_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:351.25")>>>>, <<<<S("f:351.25")>>,<<S("f:-352.5")>>,<<S("f:350003.125")>>>>, <<>>, <<<<S("f:-352.5")>>,<<S("f:351.25")>>>>>>],
  [n |-> "__miter_direction_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:361.25")>>>>, <<<<S("f:361.25")>>,<<S("f:-362.5")>>,<<S("f:360003.125")>>>>, <<>>, <<<<S("f:-362.5")>>,<<S("f:361.25")>>>>>>],
  [n |-> "__miter_direction_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:371.25")>>>>, <<<<S("f:371.25")>>,<<S("f:-372.5")>>,<<S("f:370003.125")>>>>, <<>>, <<<<S("f:-372.5")>>,<<S("f:371.25")>>>>>>],
  [n |-> "miter_directions", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1521.25"),S("f:1531.25"),S("f:1541.25")>>>>, <<<<S("f:1521.25"),S("f:1531.25"),S("f:1541.25")>>,<<S("f:-1522.5"),S("f:-1532.5"),S("f:-1542.5")>>,<<S("f:1520003.125"),S("f:1530003.125"),S("f:1540003.125")>>>>, <<>>, <<<<S("f:-1522.5"),S("f:-1532.5"),S("f:-1542.5")>>,<<S("f:1521.25"),S("f:1531.25"),S("f:1541.25")>>>>>>],
  [n |-> "__parameter_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:391")>>>>, <<<<S("i:-392")>>>>, <<<<S("i:32728")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32729")>>>>>>],
  [n |-> "parameters", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:401.25")>>>>, <<<<S("f:401.25")>>,<<S("f:-402.5")>>,<<S("f:400003.125")>>>>, <<>>, <<<<S("f:-402.5")>>,<<S("f:401.25")>>>>>>],
  [n |-> "__area_fill_parameter_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:411")>>>>, <<<<S("i:-412")>>>>, <<<<S("i:32726")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32727")>>>>>>],
  [n |-> "area_fill_parameters", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:421.25")>>>>, <<<<S("f:421.25")>>,<<S("f:-422.5")>>,<<S("f:420003.125")>>>>, <<>>, <<<<S("f:-422.5")>>,<<S("f:421.25")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbMline", 1, 21),
  W(18, <<2>>, 1, 21, FALSE, 0),
  W(19, <<340>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<70>>, 1, 21, FALSE, 0),
  W(22, <<71>>, 1, 21, FALSE, 0),
  N(72, 30, "i", 1, 21),
  W(24, <<73>>, 1, 21, FALSE, 0),
  W(25, <<10,20,30>>, 1, 21, FALSE, 0),
  W(26, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<11,21,31>>, 1, 21, FALSE, 0),
  W(34, <<12,22,32>>, 1, 21, FALSE, 0),
  W(38, <<13,23,33>>, 1, 21, FALSE, 0),
  N(74, 40, "i", 1, 21),
  W(40, <<41>>, 1, 21, FALSE, 0),
  N(75, 42, "i", 1, 21),
  W(42, <<42>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<2,18,1>>,<<340,19,1>>,<<40,20,1>>,<<70,21,1>>,<<71,22,1>>,<<72,23,1>>,<<73,24,1>>,<<10,25,1>>,<<20,25,2>>,<<30,25,3>>,<<210,26,1>>,<<220,26,2>>,<<230,26,3>>,<<11,30,1>>,<<21,30,2>>,<<31,30,3>>,<<12,34,1>>,<<22,34,2>>,<<32,34,3>>,<<13,38,1>>,<<23,38,2>>,<<33,38,3>>,<<74,39,1>>,<<41,40,1>>,<<75,41,1>>,<<42,42,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_MText ==
[key |-> "E.MText", tstr |-> "MTEXT", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 33,
 fields |-> ECommon \o <<
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "initial_text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "reference_rectangle_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "attachment_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TopLeft","i:1">>>>>>, c |-> <<<<<<<<"e:TopLeft","i:1">>>>>>, <<<<<<"e:TopCenter","i:2">>>>>>, <<<<<<"e:TopRight","i:3">>>>>>, <<<<<<"e:MiddleLeft","i:4">>>>>>, <<<<<<"e:MiddleCenter","i:5">>>>>>, <<<<<<"e:MiddleRight","i:6">>>>>>, <<<<<<"e:BottomLeft","i:7">>>>>>, <<<<<<"e:BottomCenter","i:8">>>>>>, <<<<<<"e:BottomRight","i:9">>>>>>>>],
  [n |-> "drawing_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:LeftToRight","i:1">>>>>>, c |-> <<<<<<<<"e:LeftToRight","i:1">>>>>>, <<<<<<"e:TopToBottom","i:3">>>>>>, <<<<<<"e:ByStyle","i:5">>>>>>>>],
  [n |-> "extended_text", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:extended_text 23")>>>>, <<<<S("s:extended_text 23")>>,<<S("s:a23")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a23")>>,<<S("s:extended_text 23")>>>>>>],
  [n |-> "text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:text 24")>>>>, <<<<S("s:a24")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 24 c")>>>>>>],
  [n |-> "text_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:text_style_nam 25")>>>>, <<<<S("s:a25")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 25 c")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1041.25"),S("f:1051.25"),S("f:1061.25")>>>>, <<<<S("f:-1042.5"),S("f:-1052.5"),S("f:-1062.5")>>>>, <<<<S("f:1040003.125"),S("f:1050003.125"),S("f:1060003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "x_axis_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1081.25"),S("f:1091.25"),S("f:1101.25")>>>>, <<<<S("f:-1082.5"),S("f:-1092.5"),S("f:-1102.5")>>>>, <<<<S("f:1080003.125"),S("f:1090003.125"),S("f:1100003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "horizontal_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "vertical_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "line_spacing_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AtLeast","i:1">>>>>>, c |-> <<<<<<<<"e:AtLeast","i:1">>>>>>, <<<<<<"e:Exact","i:2">>>>>>>>],
  [n |-> "line_spacing_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:-322.5")>>>>, <<<<S("f:320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3134765625")>>>>>>],
  [n |-> "background_fill_setting", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Off","i:0">>>>>>, c |-> <<<<<<<<"e:Off","i:0">>>>>>, <<<<<<"e:UseBackgroundFillColor","i:1">>>>>>, <<<<<<"e:UseDrawingWindowColor","i:2">>>>>>>>],
  [n |-> "background_color_rgb", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:2147483613")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483614")>>>>>>],
  [n |-> "background_color_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:background_col 35")>>>>, <<<<S("s:a35")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 35 c")>>>>>>],
  [n |-> "fill_box_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:361.25")>>>>, <<<<S("f:-362.5")>>>>, <<<<S("f:360003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3525390625")>>>>>>],
  [n |-> "background_fill_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:256")>>>>, c |-> <<<<<<S("i:38")>>>>, <<<<S("i:256")>>>>, <<<<S("i:88")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "background_fill_color_transparency", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:381")>>>>, <<<<S("i:-382")>>>>, <<<<S("i:2147483609")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483610")>>>>>>],
  [n |-> "column_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:391")>>>>, <<<<S("i:-392")>>>>, <<<<S("i:32728")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32729")>>>>>>],
  [n |-> "column_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:401")>>>>, <<<<S("i:-402")>>>>, <<<<S("i:32727")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32728")>>>>>>],
  [n |-> "is_column_flow_reversed", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_column_auto_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "column_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:431.25")>>>>, <<<<S("f:-432.5")>>>>, <<<<S("f:430003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4208984375")>>>>>>],
  [n |-> "column_gutter", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:441.25")>>>>, <<<<S("f:-442.5")>>>>, <<<<S("f:440003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4306640625")>>>>>>],
  [n |-> "column_heights", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:451.25")>>>>, <<<<S("f:451.25")>>,<<S("f:-452.5")>>,<<S("f:450003.125")>>>>, <<>>, <<<<S("f:-452.5")>>,<<S("f:451.25")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbMText", 1, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<40>>, 1, 21, FALSE, 0),
  W(20, <<41>>, 1, 21, FALSE, 0),
  W(21, <<71>>, 1, 21, FALSE, 0),
  W(22, <<72>>, 1, 21, FALSE, 0),
  W(23, <<3>>, 1, 21, FALSE, 0),
  W(24, <<1>>, 1, 21, FALSE, 0),
  W(25, <<7>>, 1, 21, TRUE, 0),
  W(26, <<210,220,230>>, 1, 21, TRUE, 0),
  W(27, <<11,21,31>>, 1, 21, FALSE, 0),
  W(28, <<42>>, 1, 21, FALSE, 0),
  W(29, <<43>>, 1, 21, FALSE, 0),
  W(30, <<50>>, 1, 21, FALSE, 0),
  W(31, <<73>>, 1, 21, FALSE, 0),
  W(32, <<44>>, 1, 21, FALSE, 0),
  W(33, <<90>>, 1, 21, FALSE, 0),
  W(34, <<420>>, 1, 21, FALSE, 0),
  W(35, <<430>>, 1, 21, FALSE, 0),
  W(36, <<45>>, 1, 21, TRUE, 0),
  W(37, <<63>>, 1, 21, FALSE, 0),
  W(38, <<441>>, 1, 21, FALSE, 0),
  W(39, <<75>>, 1, 21, FALSE, 0),
  W(40, <<76>>, 1, 21, FALSE, 0),
  W(41, <<78>>, 1, 21, FALSE, 0),
  W(42, <<79>>, 1, 21, FALSE, 0),
  W(43, <<48>>, 1, 21, FALSE, 0),
  W(44, <<49>>, 1, 21, FALSE, 0),
  N(50, 45, "f", 1, 21),
  W(45, <<50>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<40,19,1>>,<<41,20,1>>,<<71,21,1>>,<<72,22,1>>,<<3,23,1>>,<<1,24,1>>,<<7,25,1>>,<<210,26,1>>,<<220,26,2>>,<<230,26,3>>,<<11,27,1>>,<<21,27,2>>,<<31,27,3>>,<<42,28,1>>,<<43,29,1>>,<<50,30,1>>,<<73,31,1>>,<<44,32,1>>,<<90,33,1>>,<<420,34,1>>,<<430,35,1>>,<<45,36,1>>,<<63,37,1>>,<<441,38,1>>,<<75,39,1>>,<<76,40,1>>,<<78,41,1>>,<<79,42,1>>,<<48,43,1>>,<<49,44,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_OleFrame ==
[key |-> "E.OleFrame", tstr |-> "OLEFRAME", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 3,
 fields |-> ECommon \o <<
  [n |-> "version_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "binary_data_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:2147483628")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483629")>>>>>>],
  [n |-> "binary_data_strings", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("x:1401FF")>>>>, <<<<S("x:1401FF")>>,<<S("x:00")>>,<<S("x:1415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF000102030405060708090A0B0C0D0E0F101112")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:1401FF")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbOleFrame", 1, 21),
  W(18, <<70>>, 1, 21, FALSE, 0),
  W(19, <<90>>, 1, 21, FALSE, 0),
  W(20, <<310>>, 1, 21, FALSE, 0),
  M(1, "s:OLE", 1, 21)>>,
 rd |-> <<<<70,18,1>>,<<90,19,1>>,<<310,20,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Ole2Frame ==
[key |-> "E.Ole2Frame", tstr |-> "OLE2FRAME", min |-> 15, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 12,
 fields |-> ECommon \o <<
  [n |-> "version_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 19")>>>>, <<<<S("s:a19")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 19 c")>>>>>>],
  [n |-> "upper_left_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "lower_right_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "object_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Static","i:3">>>>>>, c |-> <<<<<<<<"e:Link","i:1">>>>>>, <<<<<<"e:Embedded","i:2">>>>>>, <<<<<<"e:Static","i:3">>>>>>>>],
  [n |-> "tile_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:InTiledViewport","i:0">>>>>>, c |-> <<<<<<<<"e:InTiledViewport","i:0">>>>>>, <<<<<<"e:InNonTiledViewport","i:1">>>>>>>>],
  [n |-> "binary_data_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:2147483623")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483624")>>>>>>],
  [n |-> "binary_data_strings", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("x:1901FF")>>>>, <<<<S("x:1901FF")>>,<<S("x:00")>>,<<S("x:191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF000102030405060708090A0B0C0D0E0F1011121314151617")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:1901FF")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbOle2Frame", 1, 21),
  W(18, <<70>>, 1, 21, FALSE, 0),
  W(19, <<3>>, 1, 21, FALSE, 0),
  W(20, <<10,20,30>>, 1, 21, FALSE, 0),
  W(21, <<11,21,31>>, 1, 21, FALSE, 0),
  W(22, <<71>>, 1, 21, FALSE, 0),
  W(23, <<72>>, 1, 21, FALSE, 0),
  W(24, <<90>>, 1, 21, FALSE, 0),
  W(25, <<310>>, 1, 21, FALSE, 0),
  M(1, "s:OLE", 1, 21)>>,
 rd |-> <<<<70,18,1>>,<<3,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<11,21,1>>,<<21,21,2>>,<<31,21,3>>,<<71,22,1>>,<<72,23,1>>,<<90,24,1>>,<<310,25,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_ModelPoint ==
[key |-> "E.ModelPoint", tstr |-> "POINT", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 8,
 fields |-> ECommon \o <<
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbPoint", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<39>>, 1, 21, TRUE, 0),
  W(20, <<210,220,230>>, 1, 21, TRUE, 0),
  W(21, <<50>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<39,19,1>>,<<210,20,1>>,<<220,20,2>>,<<230,20,3>>,<<50,21,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Polyline ==
[key |-> "E.Polyline", tstr |-> "POLYLINE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 16,
 fields |-> ECommon \o <<
  [n |-> "__seqend_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "contains_vertices", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>],
  [n |-> "default_starting_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "default_ending_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "polygon_mesh_m_vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "polygon_mesh_n_vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "smooth_surface_m_density", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "smooth_surface_n_density", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:32739")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32740")>>>>>>],
  [n |-> "surface_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:QuadraticBSpline","i:5">>>>>>, <<<<<<"e:CubicBSpline","i:6">>>>>>, <<<<<<"e:Bezier","i:8">>>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>, <<<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>>>, <<<<S("f:1200003.125"),S("f:1210003.125"),S("f:1220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "*", 14, 21),
  W(19, <<66>>, 1, 14, FALSE, 0),
  W(20, <<10,20,30>>, 13, 21, FALSE, 0),
  W(21, <<39>>, 1, 21, TRUE, 0),
  W(22, <<70>>, 1, 21, TRUE, 0),
  W(23, <<40>>, 1, 21, TRUE, 0),
  W(24, <<41>>, 1, 21, TRUE, 0),
  W(25, <<71>>, 1, 21, TRUE, 0),
  W(26, <<72>>, 1, 21, TRUE, 0),
  W(27, <<73>>, 1, 21, TRUE, 0),
  W(28, <<74>>, 1, 21, TRUE, 0),
  W(29, <<75>>, 1, 21, TRUE, 0),
  W(30, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<66,19,1>>,<<10,20,1>>,<<20,20,2>>,<<30,20,3>>,<<39,21,1>>,<<70,22,1>>,<<40,23,1>>,<<41,24,1>>,<<71,25,1>>,<<72,26,1>>,<<73,27,1>>,<<74,28,1>>,<<75,29,1>>,<<210,30,1>>,<<220,30,2>>,<<230,30,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Ray ==
[key |-> "E.Ray", tstr |-> "RAY", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 6,
 fields |-> ECommon \o <<
  [n |-> "start_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "unit_direction_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbRay", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<11,21,31>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<11,19,1>>,<<21,19,2>>,<<31,19,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Region ==
[key |-> "E.Region", tstr |-> "REGION", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 3,
 fields |-> ECommon \o <<
  [n |-> "format_version_number", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "custom_data", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:custom_data 19")>>>>, <<<<S("s:custom_data 19")>>,<<S("s:a19")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a19")>>,<<S("s:custom_data 19")>>>>>>],
  [n |-> "custom_data2", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:custom_data2 20")>>>>, <<<<S("s:custom_data2 20")>>,<<S("s:a20")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a20")>>,<<S("s:custom_data2 20")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbModelerGeometry", 14, 21),
  W(18, <<70>>, 1, 21, FALSE, 0),
  W(19, <<1>>, 1, 21, FALSE, 0),
  W(20, <<3>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<70,18,1>>,<<1,19,1>>,<<3,20,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_RText ==
[key |-> "E.RText", tstr |-> "RTEXT", min |-> 16, max |-> 16, nowire |-> FALSE, noread |-> FALSE, ns |-> 11,
 fields |-> ECommon \o <<
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "text_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:text_style 22")>>>>, <<<<S("s:a22")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 22 c")>>>>>>],
  [n |-> "type_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:32744")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32745")>>>>>>],
  [n |-> "contents", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:contents 24")>>>>, <<<<S("s:a24")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 24 c")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:RText", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<210,220,230>>, 1, 21, TRUE, 0),
  W(20, <<50>>, 1, 21, FALSE, 0),
  W(21, <<40>>, 1, 21, FALSE, 0),
  W(22, <<7>>, 1, 21, FALSE, 0),
  W(23, <<70>>, 1, 21, FALSE, 0),
  W(24, <<1>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<210,19,1>>,<<220,19,2>>,<<230,19,3>>,<<50,20,1>>,<<40,21,1>>,<<7,22,1>>,<<70,23,1>>,<<1,24,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Section ==
[key |-> "E.Section", tstr |-> "SECTION", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 14,
 fields |-> ECommon \o <<
  [n |-> "state", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:2147483629")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483630")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:2147483628")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483629")>>>>>>],
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:name 20")>>>>, <<<<S("s:a20")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 20 c")>>>>>>],
  [n |-> "vertical_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "top_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "bottom_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "indicator_transparency", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "indicator_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:256")>>>>, c |-> <<<<<<S("i:26")>>>>, <<<<S("i:256")>>>>, <<<<S("i:76")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "indicator_color_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:indicator_colo 26")>>>>, <<<<S("s:a26")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 26 c")>>>>>>],
  [n |-> "__vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:2147483620")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483621")>>>>>>],
  [n |-> "__vertices_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:281.25")>>,<<S("f:-282.5")>>,<<S("f:280003.125")>>>>, <<>>, <<<<S("f:-282.5")>>,<<S("f:281.25")>>>>>>],
  [n |-> "__vertices_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "__vertices_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:301.25")>>,<<S("f:-302.5")>>,<<S("f:300003.125")>>>>, <<>>, <<<<S("f:-302.5")>>,<<S("f:301.25")>>>>>>],
  [n |-> "vertices", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1241.25"),S("f:1251.25"),S("f:1261.25")>>>>, <<<<S("f:1241.25"),S("f:1251.25"),S("f:1261.25")>>,<<S("f:-1242.5"),S("f:-1252.5"),S("f:-1262.5")>>,<<S("f:1240003.125"),S("f:1250003.125"),S("f:1260003.125")>>>>, <<>>, <<<<S("f:-1242.5"),S("f:-1252.5"),S("f:-1262.5")>>,<<S("f:1241.25"),S("f:1251.25"),S("f:1261.25")>>>>>>],
  [n |-> "__back_line_vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:321")>>>>, <<<<S("i:-322")>>>>, <<<<S("i:2147483615")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483616")>>>>>>],
  [n |-> "__back_line_vertices_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:331.25")>>,<<S("f:-332.5")>>,<<S("f:330003.125")>>>>, <<>>, <<<<S("f:-332.5")>>,<<S("f:331.25")>>>>>>],
  [n |-> "__back_line_vertices_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:341.25")>>>>, <<<<S("f:341.25")>>,<<S("f:-342.5")>>,<<S("f:340003.125")>>>>, <<>>, <<<<S("f:-342.5")>>,<<S("f:341.25")>>>>>>],
  [n |-> "__back_line_vertices_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:351.25")>>>>, <<<<S("f:351.25")>>,<<S("f:-352.5")>>,<<S("f:350003.125")>>>>, <<>>, <<<<S("f:-352.5")>>,<<S("f:351.25")>>>>>>],
  [n |-> "back_line_vertices", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25")>>>>, <<<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25")>>,<<S("f:-1442.5"),S("f:-1452.5"),S("f:-1462.5")>>,<<S("f:1440003.125"),S("f:1450003.125"),S("f:1460003.125")>>>>, <<>>, <<<<S("f:-1442.5"),S("f:-1452.5"),S("f:-1462.5")>>,<<S("f:1441.25"),S("f:1451.25"),S("f:1461.25")>>>>>>],
  [n |-> "__geometry_settings_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A25","s:A25">>>>>>, <<<<<<"h:FFFFDA","s:FFFFDA">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbSection", 1, 21),
  W(18, <<90>>, 1, 21, FALSE, 0),
  W(19, <<91>>, 1, 21, FALSE, 0),
  W(20, <<1>>, 1, 21, FALSE, 0),
  W(21, <<10,20,30>>, 1, 21, FALSE, 0),
  W(22, <<40>>, 1, 21, FALSE, 0),
  W(23, <<41>>, 1, 21, FALSE, 0),
  W(24, <<70>>, 1, 21, FALSE, 0),
  W(25, <<63>>, 1, 21, FALSE, 0),
  W(26, <<411>>, 1, 21, FALSE, 0),
  N(92, 31, "i", 1, 21),
  W(31, <<11,21,31>>, 1, 21, FALSE, 0),
  N(93, 36, "i", 1, 21),
  W(36, <<12,22,32>>, 1, 21, FALSE, 0),
  W(37, <<360>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<90,18,1>>,<<91,19,1>>,<<1,20,1>>,<<10,21,1>>,<<20,21,2>>,<<30,21,3>>,<<40,22,1>>,<<41,23,1>>,<<70,24,1>>,<<63,25,1>>,<<411,26,1>>,<<92,27,1>>,<<11,31,1>>,<<21,31,2>>,<<31,31,3>>,<<93,32,1>>,<<12,36,1>>,<<22,36,2>>,<<32,36,3>>,<<360,37,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Seqend ==
[key |-> "E.Seqend", tstr |-> "SEQEND", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 0,
 fields |-> ECommon \o <<
>>,
 wr |-> ECommonWr \o <<
>>,
 rd |-> <<<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Shape ==
[key |-> "E.Shape", tstr |-> "SHAPE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 12,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:name 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "relative_x_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "oblique_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1001.25"),S("f:1011.25"),S("f:1021.25")>>>>, <<<<S("f:-1002.5"),S("f:-1012.5"),S("f:-1022.5")>>>>, <<<<S("f:1000003.125"),S("f:1010003.125"),S("f:1020003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbShape", 14, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<2>>, 1, 21, FALSE, 0),
  W(22, <<50>>, 1, 21, TRUE, 0),
  W(23, <<41>>, 1, 21, TRUE, 0),
  W(24, <<51>>, 1, 21, TRUE, 0),
  W(25, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<40,20,1>>,<<2,21,1>>,<<50,22,1>>,<<41,23,1>>,<<51,24,1>>,<<210,25,1>>,<<220,25,2>>,<<230,25,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Solid ==
[key |-> "E.Solid", tstr |-> "SOLID", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 16,
 fields |-> ECommon \o <<
  [n |-> "first_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "second_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "third_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "fourth_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:921.25"),S("f:931.25"),S("f:941.25")>>>>, <<<<S("f:-922.5"),S("f:-932.5"),S("f:-942.5")>>>>, <<<<S("f:920003.125"),S("f:930003.125"),S("f:940003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbTrace", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<11,21,31>>, 1, 21, FALSE, 0),
  W(20, <<12,22,32>>, 1, 21, FALSE, 0),
  W(21, <<13,23,33>>, 1, 21, FALSE, 0),
  W(22, <<39>>, 1, 21, TRUE, 0),
  W(23, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<11,19,1>>,<<21,19,2>>,<<31,19,3>>,<<12,20,1>>,<<22,20,2>>,<<32,20,3>>,<<13,21,1>>,<<23,21,2>>,<<33,21,3>>,<<39,22,1>>,<<210,23,1>>,<<220,23,2>>,<<230,23,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Spline ==
[key |-> "E.Spline", tstr |-> "SPLINE", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 19,
 fields |-> ECommon \o <<
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:191")>>>>, <<<<S("i:-192")>>>>, <<<<S("i:32748")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32749")>>>>>>],
  [n |-> "degree_of_curve", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:32747")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32748")>>>>>>],
  [n |-> "__number_of_knots_ignored", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:211")>>>>, <<<<S("i:-212")>>>>, <<<<S("i:32746")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32747")>>>>>>],
  [n |-> "__number_of_control_points_ignored", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>],
  [n |-> "__number_of_fit_points_ignored", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:231")>>>>, <<<<S("i:-232")>>>>, <<<<S("i:32744")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32745")>>>>>>],
  [n |-> "knot_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1e-07")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "control_point_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1e-07")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "fit_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1e-10")>>>>, c |-> <<<<<<S("f:261.25")>>>>, <<<<S("f:-262.5")>>>>, <<<<S("f:260003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2548828125")>>>>>>],
  [n |-> "start_tangent", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1081.25"),S("f:1091.25"),S("f:1101.25")>>>>, <<<<S("f:-1082.5"),S("f:-1092.5"),S("f:-1102.5")>>>>, <<<<S("f:1080003.125"),S("f:1090003.125"),S("f:1100003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "end_tangent", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1121.25"),S("f:1131.25"),S("f:1141.25")>>>>, <<<<S("f:-1122.5"),S("f:-1132.5"),S("f:-1142.5")>>>>, <<<<S("f:1120003.125"),S("f:1130003.125"),S("f:1140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "knot_values", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "weight_values", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:301.25")>>,<<S("f:-302.5")>>,<<S("f:300003.125")>>>>, <<>>, <<<<S("f:-302.5")>>,<<S("f:301.25")>>>>>>],
  [n |-> "__control_point_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:311.25")>>,<<S("f:-312.5")>>,<<S("f:310003.125")>>>>, <<>>, <<<<S("f:-312.5")>>,<<S("f:311.25")>>>>>>],
  [n |-> "__control_point_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:321.25")>>,<<S("f:-322.5")>>,<<S("f:320003.125")>>>>, <<>>, <<<<S("f:-322.5")>>,<<S("f:321.25")>>>>>>],
  [n |-> "__control_point_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:331.25")>>,<<S("f:-332.5")>>,<<S("f:330003.125")>>>>, <<>>, <<<<S("f:-332.5")>>,<<S("f:331.25")>>>>>>],
  [n |-> "control_points", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>, <<<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>,<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>,<<S("f:1360003.125"),S("f:1370003.125"),S("f:1380003.125")>>>>, <<>>, <<<<S("f:-1362.5"),S("f:-1372.5"),S("f:-1382.5")>>,<<S("f:1361.25"),S("f:1371.25"),S("f:1381.25")>>>>>>],
  [n |-> "__fit_point_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:351.25")>>>>, <<<<S("f:351.25")>>,<<S("f:-352.5")>>,<<S("f:350003.125")>>>>, <<>>, <<<<S("f:-352.5")>>,<<S("f:351.25")>>>>>>],
  [n |-> "__fit_point_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:361.25")>>>>, <<<<S("f:361.25")>>,<<S("f:-362.5")>>,<<S("f:360003.125")>>>>, <<>>, <<<<S("f:-362.5")>>,<<S("f:361.25")>>>>>>],
  [n |-> "__fit_point_z", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:371.25")>>>>, <<<<S("f:371.25")>>,<<S("f:-372.5")>>,<<S("f:370003.125")>>>>, <<>>, <<<<S("f:-372.5")>>,<<S("f:371.25")>>>>>>],
  [n |-> "fit_points", ks |-> <<"x","y","z">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1521.25"),S("f:1531.25"),S("f:1541.25")>>>>, <<<<S("f:1521.25"),S("f:1531.25"),S("f:1541.25")>>,<<S("f:-1522.5"),S("f:-1532.5"),S("f:-1542.5")>>,<<S("f:1520003.125"),S("f:1530003.125"),S("f:1540003.125")>>>>, <<>>, <<<<S("f:-1522.5"),S("f:-1532.5"),S("f:-1542.5")>>,<<S("f:1521.25"),S("f:1531.25"),S("f:1541.25")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbSpline", 1, 21),
  W(18, <<210,220,230>>, 1, 21, FALSE, 0),
  W(19, <<70>>, 1, 21, FALSE, 0),
  W(20, <<71>>, 1, 21, FALSE, 0),
  N(72, 29, "i", 1, 21),
  N(73, 34, "i", 1, 21),
  N(74, 38, "i", 1, 21),
  W(24, <<42>>, 1, 21, TRUE, 0),
  W(25, <<43>>, 1, 21, TRUE, 0),
  W(26, <<44>>, 1, 21, TRUE, 0),
  W(27, <<12,22,32>>, 1, 21, FALSE, 0),
  W(28, <<13,23,33>>, 1, 21, FALSE, 0),
  W(29, <<40>>, 1, 21, FALSE, 0),
  W(30, <<41>>, 1, 21, FALSE, 0),
  W(34, <<10,20,30>>, 1, 21, FALSE, 0),
  W(38, <<11,21,31>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<210,18,1>>,<<220,18,2>>,<<230,18,3>>,<<70,19,1>>,<<71,20,1>>,<<72,21,1>>,<<73,22,1>>,<<74,23,1>>,<<42,24,1>>,<<43,25,1>>,<<44,26,1>>,<<12,27,1>>,<<22,27,2>>,<<32,27,3>>,<<13,28,1>>,<<23,28,2>>,<<33,28,3>>,<<40,29,1>>,<<41,30,1>>,<<10,34,1>>,<<20,34,2>>,<<30,34,3>>,<<11,38,1>>,<<21,38,2>>,<<31,38,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Text ==
[key |-> "E.Text", tstr |-> "TEXT", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 19,
 fields |-> ECommon \o <<
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:181.25")>>>>, <<<<S("f:-182.5")>>>>, <<<<S("f:180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1767578125")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:value 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "rotation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "relative_x_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "oblique_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "text_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:text_style_nam 25")>>>>, <<<<S("s:a25")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 25 c")>>>>>>],
  [n |-> "text_generation_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "horizontal_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Left","i:0">>>>>>, c |-> <<<<<<<<"e:Left","i:0">>>>>>, <<<<<<"e:Center","i:1">>>>>>, <<<<<<"e:Right","i:2">>>>>>, <<<<<<"e:Aligned","i:3">>>>>>, <<<<<<"e:Middle","i:4">>>>>>, <<<<<<"e:Fit","i:5">>>>>>>>],
  [n |-> "second_alignment_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1121.25"),S("f:1131.25"),S("f:1141.25")>>>>, <<<<S("f:-1122.5"),S("f:-1132.5"),S("f:-1142.5")>>>>, <<<<S("f:1120003.125"),S("f:1130003.125"),S("f:1140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "vertical_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Baseline","i:0">>>>>>, c |-> <<<<<<<<"e:Baseline","i:0">>>>>>, <<<<<<"e:Bottom","i:1">>>>>>, <<<<<<"e:Middle","i:2">>>>>>, <<<<<<"e:Top","i:3">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbText", 14, 21),
  W(18, <<39>>, 1, 21, TRUE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<40>>, 1, 21, FALSE, 0),
  W(21, <<1>>, 1, 21, FALSE, 0),
  W(22, <<50>>, 1, 21, TRUE, 0),
  W(23, <<41>>, 1, 21, TRUE, 0),
  W(24, <<51>>, 1, 21, TRUE, 0),
  W(25, <<7>>, 1, 21, TRUE, 0),
  W(26, <<71>>, 1, 21, TRUE, 0),
  W(27, <<72>>, 1, 21, TRUE, 0),
  W(28, <<11,21,31>>, 1, 21, TRUE, 0),
  W(29, <<210,220,230>>, 1, 21, TRUE, 0),
  W(30, <<73>>, 1, 21, TRUE, 0),
  M(100, "s:AcDbText", 14, 21)>>,
 rd |-> <<<<39,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<40,20,1>>,<<1,21,1>>,<<50,22,1>>,<<41,23,1>>,<<51,24,1>>,<<7,25,1>>,<<71,26,1>>,<<72,27,1>>,<<11,28,1>>,<<21,28,2>>,<<31,28,3>>,<<210,29,1>>,<<220,29,2>>,<<230,29,3>>,<<73,30,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Tolerance ==
[key |-> "E.Tolerance", tstr |-> "TOLERANCE", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 11,
 fields |-> ECommon \o <<
  [n |-> "dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_styl 18")>>>>, <<<<S("s:a18")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 18 c")>>>>>>],
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "display_text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:display_text 20")>>>>, <<<<S("s:a20")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 20 c")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "direction_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:881.25"),S("f:891.25"),S("f:901.25")>>>>, <<<<S("f:-882.5"),S("f:-892.5"),S("f:-902.5")>>>>, <<<<S("f:880003.125"),S("f:890003.125"),S("f:900003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbFcf", 14, 21),
  W(18, <<3>>, 1, 21, FALSE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<1>>, 16, 21, FALSE, 0),
  W(21, <<210,220,230>>, 1, 21, TRUE, 0),
  W(22, <<11,21,31>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<3,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<1,20,1>>,<<210,21,1>>,<<220,21,2>>,<<230,21,3>>,<<11,22,1>>,<<21,22,2>>,<<31,22,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Trace ==
[key |-> "E.Trace", tstr |-> "TRACE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 16,
 fields |-> ECommon \o <<
  [n |-> "first_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "second_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "third_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "fourth_corner", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "extrusion_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:921.25"),S("f:931.25"),S("f:941.25")>>>>, <<<<S("f:-922.5"),S("f:-932.5"),S("f:-942.5")>>>>, <<<<S("f:920003.125"),S("f:930003.125"),S("f:940003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbTrace", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<11,21,31>>, 1, 21, FALSE, 0),
  W(20, <<12,22,32>>, 1, 21, FALSE, 0),
  W(21, <<13,23,33>>, 1, 21, FALSE, 0),
  W(22, <<39>>, 1, 21, TRUE, 0),
  W(23, <<210,220,230>>, 1, 21, TRUE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<11,19,1>>,<<21,19,2>>,<<31,19,3>>,<<12,20,1>>,<<22,20,2>>,<<32,20,3>>,<<13,21,1>>,<<23,21,2>>,<<33,21,3>>,<<39,22,1>>,<<210,23,1>>,<<220,23,2>>,<<230,23,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_DgnUnderlay ==
[key |-> "E.DgnUnderlay", tstr |-> "DGNUNDERLAY", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 14,
 fields |-> ECommon \o <<
  [n |-> "__object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "x_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "y_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "z_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:961.25"),S("f:971.25"),S("f:981.25")>>>>, <<<<S("f:-962.5"),S("f:-972.5"),S("f:-982.5")>>>>, <<<<S("f:960003.125"),S("f:970003.125"),S("f:980003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "contrast", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:100")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "fade", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "__point_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:281.25")>>,<<S("f:-282.5")>>,<<S("f:280003.125")>>>>, <<>>, <<<<S("f:-282.5")>>,<<S("f:281.25")>>>>>>],
  [n |-> "__point_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "points", ks |-> <<"x","y">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25")>>>>, <<<<S("f:1201.25"),S("f:1211.25")>>,<<S("f:-1202.5"),S("f:-1212.5")>>,<<S("f:1200003.125"),S("f:1210003.125")>>>>, <<>>, <<<<S("f:-1202.5"),S("f:-1212.5")>>,<<S("f:1201.25"),S("f:1211.25")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbUnderlayReference", 1, 21),
  W(18, <<340>>, 1, 21, FALSE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<41>>, 1, 21, FALSE, 0),
  W(21, <<42>>, 1, 21, FALSE, 0),
  W(22, <<43>>, 1, 21, FALSE, 0),
  W(23, <<50>>, 1, 21, FALSE, 0),
  W(24, <<210,220,230>>, 1, 21, FALSE, 0),
  W(25, <<280>>, 1, 21, FALSE, 0),
  W(26, <<281>>, 1, 21, FALSE, 0),
  W(27, <<282>>, 1, 21, FALSE, 0),
  W(30, <<11,21>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<340,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<41,20,1>>,<<42,21,1>>,<<43,22,1>>,<<50,23,1>>,<<210,24,1>>,<<220,24,2>>,<<230,24,3>>,<<280,25,1>>,<<281,26,1>>,<<282,27,1>>,<<11,30,1>>,<<21,30,2>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_DwfUnderlay ==
[key |-> "E.DwfUnderlay", tstr |-> "DWFUNDERLAY", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 14,
 fields |-> ECommon \o <<
  [n |-> "__object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "x_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "y_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "z_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:961.25"),S("f:971.25"),S("f:981.25")>>>>, <<<<S("f:-962.5"),S("f:-972.5"),S("f:-982.5")>>>>, <<<<S("f:960003.125"),S("f:970003.125"),S("f:980003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "contrast", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:100")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "fade", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "__point_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:281.25")>>,<<S("f:-282.5")>>,<<S("f:280003.125")>>>>, <<>>, <<<<S("f:-282.5")>>,<<S("f:281.25")>>>>>>],
  [n |-> "__point_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "points", ks |-> <<"x","y">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25")>>>>, <<<<S("f:1201.25"),S("f:1211.25")>>,<<S("f:-1202.5"),S("f:-1212.5")>>,<<S("f:1200003.125"),S("f:1210003.125")>>>>, <<>>, <<<<S("f:-1202.5"),S("f:-1212.5")>>,<<S("f:1201.25"),S("f:1211.25")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbUnderlayReference", 1, 21),
  W(18, <<340>>, 1, 21, FALSE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<41>>, 1, 21, FALSE, 0),
  W(21, <<42>>, 1, 21, FALSE, 0),
  W(22, <<43>>, 1, 21, FALSE, 0),
  W(23, <<50>>, 1, 21, FALSE, 0),
  W(24, <<210,220,230>>, 1, 21, FALSE, 0),
  W(25, <<280>>, 1, 21, FALSE, 0),
  W(26, <<281>>, 1, 21, FALSE, 0),
  W(27, <<282>>, 1, 21, FALSE, 0),
  W(30, <<11,21>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<340,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<41,20,1>>,<<42,21,1>>,<<43,22,1>>,<<50,23,1>>,<<210,24,1>>,<<220,24,2>>,<<230,24,3>>,<<280,25,1>>,<<281,26,1>>,<<282,27,1>>,<<11,30,1>>,<<21,30,2>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_PdfUnderlay ==
[key |-> "E.PdfUnderlay", tstr |-> "PDFUNDERLAY", min |-> 18, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 14,
 fields |-> ECommon \o <<
  [n |-> "__object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "insertion_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "x_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "y_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "z_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:221.25")>>>>, <<<<S("f:-222.5")>>>>, <<<<S("f:220003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2158203125")>>>>>>],
  [n |-> "rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "normal", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:961.25"),S("f:971.25"),S("f:981.25")>>>>, <<<<S("f:-962.5"),S("f:-972.5"),S("f:-982.5")>>>>, <<<<S("f:960003.125"),S("f:970003.125"),S("f:980003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "contrast", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:100")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "fade", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "__point_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:281.25")>>,<<S("f:-282.5")>>,<<S("f:280003.125")>>>>, <<>>, <<<<S("f:-282.5")>>,<<S("f:281.25")>>>>>>],
  [n |-> "__point_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:291.25")>>,<<S("f:-292.5")>>,<<S("f:290003.125")>>>>, <<>>, <<<<S("f:-292.5")>>,<<S("f:291.25")>>>>>>],
  [n |-> "points", ks |-> <<"x","y">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25")>>>>, <<<<S("f:1201.25"),S("f:1211.25")>>,<<S("f:-1202.5"),S("f:-1212.5")>>,<<S("f:1200003.125"),S("f:1210003.125")>>>>, <<>>, <<<<S("f:-1202.5"),S("f:-1212.5")>>,<<S("f:1201.25"),S("f:1211.25")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbUnderlayReference", 1, 21),
  W(18, <<340>>, 1, 21, FALSE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<41>>, 1, 21, FALSE, 0),
  W(21, <<42>>, 1, 21, FALSE, 0),
  W(22, <<43>>, 1, 21, FALSE, 0),
  W(23, <<50>>, 1, 21, FALSE, 0),
  W(24, <<210,220,230>>, 1, 21, FALSE, 0),
  W(25, <<280>>, 1, 21, FALSE, 0),
  W(26, <<281>>, 1, 21, FALSE, 0),
  W(27, <<282>>, 1, 21, FALSE, 0),
  W(30, <<11,21>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<340,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<41,20,1>>,<<42,21,1>>,<<43,22,1>>,<<50,23,1>>,<<210,24,1>>,<<220,24,2>>,<<230,24,3>>,<<280,25,1>>,<<281,26,1>>,<<282,27,1>>,<<11,30,1>>,<<21,30,2>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Vertex ==
[key |-> "E.Vertex", tstr |-> "VERTEX", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 13,
 fields |-> ECommon \o <<
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "starting_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "ending_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "bulge", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:211.25")>>>>, <<<<S("f:-212.5")>>>>, <<<<S("f:210003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2060546875")>>>>>>],
  [n |-> "flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:221")>>>>, <<<<S("i:-222")>>>>, <<<<S("i:32745")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32746")>>>>>>],
  [n |-> "curve_fit_tangent_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "polyface_mesh_vertex_index1", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "polyface_mesh_vertex_index2", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:251")>>>>, <<<<S("i:-252")>>>>, <<<<S("i:32742")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32743")>>>>>>],
  [n |-> "polyface_mesh_vertex_index3", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "polyface_mesh_vertex_index4", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "identifier", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:2147483619")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483620")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbVertex", 1, 21),
  M(100, "*", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<40>>, 1, 21, TRUE, 0),
  W(20, <<41>>, 1, 21, TRUE, 0),
  W(21, <<42>>, 1, 21, TRUE, 0),
  W(22, <<70>>, 1, 21, FALSE, 0),
  W(23, <<50>>, 1, 21, FALSE, 0),
  W(24, <<71>>, 13, 21, TRUE, 0),
  W(25, <<72>>, 13, 21, TRUE, 0),
  W(26, <<73>>, 13, 21, TRUE, 0),
  W(27, <<74>>, 13, 21, TRUE, 0),
  W(28, <<91>>, 19, 21, FALSE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<40,19,1>>,<<41,20,1>>,<<42,21,1>>,<<70,22,1>>,<<50,23,1>>,<<71,24,1>>,<<72,25,1>>,<<73,26,1>>,<<74,27,1>>,<<91,28,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_Wipeout ==
[key |-> "E.Wipeout", tstr |-> "WIPEOUT", min |-> 16, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 22,
 fields |-> ECommon \o <<
  [n |-> "class_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:2147483629")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483630")>>>>>>],
  [n |-> "location", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "u_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "v_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "image_size", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:881.25"),S("f:891.25")>>>>, <<<<S("f:-882.5"),S("f:-892.5")>>>>, <<<<S("f:880003.125"),S("f:890003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "image_def_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:image_def_refe 23")>>>>, <<<<S("s:a23")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 23 c")>>>>>>],
  [n |-> "display_options_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:241")>>>>, <<<<S("i:-242")>>>>, <<<<S("i:32743")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32744")>>>>>>],
  [n |-> "use_clipping", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "brightness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:50")>>>>, c |-> <<<<<<S("i:261")>>>>, <<<<S("i:-262")>>>>, <<<<S("i:32741")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32742")>>>>>>],
  [n |-> "contrast", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:50")>>>>, c |-> <<<<<<S("i:271")>>>>, <<<<S("i:-272")>>>>, <<<<S("i:32740")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32741")>>>>>>],
  [n |-> "fade", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:281")>>>>, <<<<S("i:-282")>>>>, <<<<S("i:32739")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32740")>>>>>>],
  [n |-> "image_def_reactor_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:image_def_reac 29")>>>>, <<<<S("s:a29")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 29 c")>>>>>>],
  [n |-> "clipping_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Rectangular","i:1">>>>>>, c |-> <<<<<<<<"e:Rectangular","i:1">>>>>>, <<<<<<"e:Polygonal","i:2">>>>>>>>],
  [n |-> "clipping_vertex_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:311")>>>>, <<<<S("i:-312")>>>>, <<<<S("i:2147483616")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483617")>>>>>>],
  [n |-> "__clipping_vertices_x", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:321.25")>>,<<S("f:-322.5")>>,<<S("f:320003.125")>>>>, <<>>, <<<<S("f:-322.5")>>,<<S("f:321.25")>>>>>>],
  [n |-> "__clipping_vertices_y", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:331.25")>>,<<S("f:-332.5")>>,<<S("f:330003.125")>>>>, <<>>, <<<<S("f:-332.5")>>,<<S("f:331.25")>>>>>>],
  [n |-> "clipping_vertices", ks |-> <<"x","y">>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:1361.25"),S("f:1371.25")>>>>, <<<<S("f:1361.25"),S("f:1371.25")>>,<<S("f:-1362.5"),S("f:-1372.5")>>,<<S("f:1360003.125"),S("f:1370003.125")>>>>, <<>>, <<<<S("f:-1362.5"),S("f:-1372.5")>>,<<S("f:1361.25"),S("f:1371.25")>>>>>>],
  [n |-> "is_inside_clipping", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbRasterImage", 1, 21),
  W(18, <<90>>, 1, 21, FALSE, 0),
  W(19, <<10,20,30>>, 1, 21, FALSE, 0),
  W(20, <<11,21,31>>, 1, 21, FALSE, 0),
  W(21, <<12,22,32>>, 1, 21, FALSE, 0),
  W(22, <<13,23>>, 1, 21, FALSE, 0),
  W(23, <<340>>, 1, 21, FALSE, 0),
  W(24, <<70>>, 1, 21, FALSE, 0),
  W(25, <<280>>, 1, 21, FALSE, 0),
  W(26, <<281>>, 1, 21, FALSE, 0),
  W(27, <<282>>, 1, 21, FALSE, 0),
  W(28, <<283>>, 1, 21, FALSE, 0),
  W(29, <<360>>, 1, 21, FALSE, 0),
  W(30, <<71>>, 1, 21, FALSE, 0),
  N(91, 34, "i", 1, 21),
  W(34, <<14,24>>, 1, 21, FALSE, 0),
  W(35, <<290>>, 19, 21, FALSE, 0)>>,
 rd |-> <<<<90,18,1>>,<<10,19,1>>,<<20,19,2>>,<<30,19,3>>,<<11,20,1>>,<<21,20,2>>,<<31,20,3>>,<<12,21,1>>,<<22,21,2>>,<<32,21,3>>,<<13,22,1>>,<<23,22,2>>,<<340,23,1>>,<<70,24,1>>,<<280,25,1>>,<<281,26,1>>,<<282,27,1>>,<<283,28,1>>,<<360,29,1>>,<<71,30,1>>,<<91,31,1>>,<<14,34,1>>,<<24,34,2>>,<<290,35,1>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

E_XLine ==
[key |-> "E.XLine", tstr |-> "XLINE", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 6,
 fields |-> ECommon \o <<
  [n |-> "first_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:721.25"),S("f:731.25"),S("f:741.25")>>>>, <<<<S("f:-722.5"),S("f:-732.5"),S("f:-742.5")>>>>, <<<<S("f:720003.125"),S("f:730003.125"),S("f:740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "unit_direction_vector", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> ECommonWr \o <<
  M(100, "s:AcDbXline", 14, 21),
  W(18, <<10,20,30>>, 1, 21, FALSE, 0),
  W(19, <<11,21,31>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<10,18,1>>,<<20,18,2>>,<<30,18,3>>,<<11,19,1>>,<<21,19,2>>,<<31,19,3>>,<<330,1,1>>,<<67,2,1>>,<<8,3,1>>,<<6,4,1>>,<<38,5,1>>,<<347,6,1>>,<<62,7,1>>,<<370,8,1>>,<<48,9,1>>,<<60,10,1>>,<<92,11,1>>,<<310,12,1>>,<<420,13,1>>,<<430,14,1>>,<<440,15,1>>,<<390,16,1>>,<<284,17,1>>>>]

Kinds == <<E_Face3D, E_Solid3D, E_ProxyEntity, E_Arc, E_ArcAlignedText, E_AttributeDefinition, E_Attribute, E_Body, E_Circle, E_RotatedDimension, E_RadialDimension, E_DiameterDimension, E_AngularThreePointDimension, E_OrdinateDimension, E_Ellipse, E_Helix, E_Image, E_Insert, E_Leader, E_Light, E_Line, E_LwPolyline, E_MLine, E_MText, E_OleFrame, E_Ole2Frame, E_ModelPoint, E_Polyline, E_Ray, E_Region, E_RText, E_Section, E_Seqend, E_Shape, E_Solid, E_Spline, E_Text, E_Tolerance, E_Trace, E_DgnUnderlay, E_DwfUnderlay, E_PdfUnderlay, E_Vertex, E_Wipeout, E_XLine>>
================================================================================
