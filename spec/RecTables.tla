---------------------------- MODULE RecTables ----------------------------
(* Record catalogue, drafted from the DXF record definitions by tools/xml2tla.py and
   frozen here: what each record kind contains, with which group codes, in which file
   versions, and the values the model assigns to each field.  See Records.tla. *)
EXTENDS RecOps

T_AppId ==
[key |-> "T.AppId", tstr |-> "APPID", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 1,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn AppId")>>>>, <<<<S("s:B-AppId")>>>>, <<<<S("s:x")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbRegAppTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21)>>,
 rd |-> <<<<2,1,1>>>>]

T_BlockRecord ==
[key |-> "T.BlockRecord", tstr |-> "BLOCK_RECORD", min |-> 14, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 6,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn BlockRecord")>>>>, <<<<S("s:B-BlockRecord")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "__layout_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A02","s:A02">>>>>>, <<<<<<"h:FFFFFD","s:FFFFFD">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "insertion_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Unitless","i:0">>>>>>, c |-> <<<<<<<<"e:Unitless","i:0">>>>>>, <<<<<<"e:Inches","i:1">>>>>>, <<<<<<"e:Feet","i:2">>>>>>, <<<<<<"e:Miles","i:3">>>>>>, <<<<<<"e:Millimeters","i:4">>>>>>, <<<<<<"e:Centimeters","i:5">>>>>>, <<<<<<"e:Meters","i:6">>>>>>, <<<<<<"e:Kilometers","i:7">>>>>>, <<<<<<"e:Microinches","i:8">>>>>>, <<<<<<"e:Mils","i:9">>>>>>, <<<<<<"e:Yards","i:10">>>>>>, <<<<<<"e:Angstroms","i:11">>>>>>, <<<<<<"e:Nanometers","i:12">>>>>>, <<<<<<"e:Microns","i:13">>>>>>, <<<<<<"e:Decimeters","i:14">>>>>>, <<<<<<"e:Decameters","i:15">>>>>>, <<<<<<"e:Hectometers","i:16">>>>>>, <<<<<<"e:Gigameters","i:17">>>>>>, <<<<<<"e:AstronomicalUnits","i:18">>>>>>, <<<<<<"e:LightYears","i:19">>>>>>, <<<<<<"e:Parsecs","i:20">>>>>>, <<<<<<"e:USSurveyFeet","i:21">>>>>>, <<<<<<"e:USSurveyInch","i:22">>>>>>, <<<<<<"e:USSurveyYard","i:23">>>>>>, <<<<<<"e:USSurveyMile","i:24">>>>>>>>],
  [n |-> "explodability", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "scalability", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__bitmap_preview_data", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<S("x:0601FF")>>>>, <<<<S("x:0601FF")>>,<<S("x:00")>>,<<S("x:060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F606162636465666768696A6B6C6D6E6F707172737475767778797A7B7C7D7E7F808182838485868788898A8B8C8D8E8F909192939495969798999A9B9C9D9E9FA0A1A2A3A4A5A6A7A8A9AAABACADAEAFB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CACBCCCDCECFD0D1D2D3D4D5D6D7D8D9DADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9EAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF0001020304")>>>>, <<>>, <<<<S("x:00")>>,<<S("x:0601FF")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbBlockTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  MV(70, "i:0", "e:Unitless", 1, 21),
  W(2, <<340>>, 16, 21, FALSE, 0),
  W(3, <<70>>, 18, 21, FALSE, 0),
  W(4, <<280>>, 18, 21, FALSE, 0),
  W(5, <<281>>, 18, 21, FALSE, 0),
  W(6, <<310>>, 16, 21, FALSE, 0)>>,
 rd |-> <<<<2,1,1>>,<<340,2,1>>,<<70,3,1>>,<<280,4,1>>,<<281,5,1>>,<<310,6,1>>>>]

T_DimStyle ==
[key |-> "T.DimStyle", tstr |-> "DIMSTYLE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 69,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn DimStyle")>>>>, <<<<S("s:B-DimStyle")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "dimensioning_suffix", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimensioning_s 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "alternate_dimensioning_suffix", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:alternate_dime 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "first_arrow_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:first_arrow_bl 4")>>>>, <<<<S("s:a4")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 4 c")>>>>>>],
  [n |-> "second_arrow_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:second_arrow_b 5")>>>>, <<<<S("s:a5")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 5 c")>>>>>>],
  [n |-> "dimensioning_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "dimensioning_arrow_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.18")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "dimension_extension_line_offset", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0625")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "dimension_line_increment", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.38")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "dimension_extension_line_extension", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.18")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "dimension_distance_rounding_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:111.25")>>>>, <<<<S("f:-112.5")>>>>, <<<<S("f:110003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1083984375")>>>>>>],
  [n |-> "dimension_line_extension", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:121.25")>>>>, <<<<S("f:-122.5")>>>>, <<<<S("f:120003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1181640625")>>>>>>],
  [n |-> "dimension_plus_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:131.25")>>>>, <<<<S("f:-132.5")>>>>, <<<<S("f:130003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1279296875")>>>>>>],
  [n |-> "dimension_minus_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:141.25")>>>>, <<<<S("f:-142.5")>>>>, <<<<S("f:140003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1376953125")>>>>>>],
  [n |-> "generate_dimension_tolerances", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "generate_dimension_limits", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_text_inside_horizontal", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_text_outside_horizontal", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "suppress_first_dimension_extension_line", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "suppress_second_dimension_extension_line", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "text_above_dimension_line", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_unit_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "dimension_angle_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "dimensioning_text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.18")>>>>, c |-> <<<<<<S("f:241.25")>>>>, <<<<S("f:-242.5")>>>>, <<<<S("f:240003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2353515625")>>>>>>],
  [n |-> "center_mark_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.09")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "dimensioning_tick_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:261.25")>>>>, <<<<S("f:-262.5")>>>>, <<<<S("f:260003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2548828125")>>>>>>],
  [n |-> "alternate_dimensioning_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:25.4")>>>>, c |-> <<<<<<S("f:271.25")>>>>, <<<<S("f:-272.5")>>>>, <<<<S("f:270003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2646484375")>>>>>>],
  [n |-> "dimension_linear_measurement_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:281.25")>>>>, <<<<S("f:-282.5")>>>>, <<<<S("f:280003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2744140625")>>>>>>],
  [n |-> "dimension_vertical_text_position", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "dimension_tolerance_displace_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "dimension_line_gap", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.09")>>>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:-312.5")>>>>, <<<<S("f:310003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3037109375")>>>>>>],
  [n |-> "alternate_dimensioning_unit_rounding", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:-322.5")>>>>, <<<<S("f:320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3134765625")>>>>>>],
  [n |-> "use_alternate_dimensioning", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "alternate_dimensioning_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:2")>>>>, c |-> <<<<<<S("i:341")>>>>, <<<<S("i:-342")>>>>, <<<<S("i:32733")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32734")>>>>>>],
  [n |-> "force_dimension_line_extensions_outside_if_text_exists", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_separate_arrow_blocks_for_dimensions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "force_dimension_text_inside_extensions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "suppress_outside_extension_dimension_lines", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_line_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:40")>>>>, <<<<S("i:256")>>>>, <<<<S("i:90")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_extension_line_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:41")>>>>, <<<<S("i:256")>>>>, <<<<S("i:91")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_text_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:42")>>>>, <<<<S("i:256")>>>>, <<<<S("i:92")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "angular_dimension_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:12")>>>>, c |-> <<<<<<S("i:421")>>>>, <<<<S("i:-422")>>>>, <<<<S("i:32725")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32726")>>>>>>],
  [n |-> "dimension_unit_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Scientific","i:1">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:ArchitecturalStacked","i:4">>>>>>, <<<<<<"e:FractionalStacked","i:5">>>>>>, <<<<<<"e:Architectural","i:6">>>>>>, <<<<<<"e:Fractional","i:7">>>>>>>>],
  [n |-> "dimension_unit_tolerance_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:441")>>>>, <<<<S("i:-442")>>>>, <<<<S("i:32723")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32724")>>>>>>],
  [n |-> "dimension_tolerace_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:451")>>>>, <<<<S("i:-452")>>>>, <<<<S("i:32722")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32723")>>>>>>],
  [n |-> "alternate_dimensioning_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Scientific","i:1">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:ArchitecturalStacked","i:4">>>>>>, <<<<<<"e:FractionalStacked","i:5">>>>>>, <<<<<<"e:Architectural","i:6">>>>>>, <<<<<<"e:Fractional","i:7">>>>>>>>],
  [n |-> "alternate_dimensioning_tolerance_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:471")>>>>, <<<<S("i:-472")>>>>, <<<<S("i:32720")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32721")>>>>>>],
  [n |-> "dimensioning_angle_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DecimalDegrees","i:0">>>>>>, c |-> <<<<<<<<"e:DecimalDegrees","i:0">>>>>>, <<<<<<"e:DegreesMinutesSeconds","i:1">>>>>>, <<<<<<"e:Gradians","i:2">>>>>>, <<<<<<"e:Radians","i:3">>>>>>, <<<<<<"e:SurveyorsUnits","i:4">>>>>>>>],
  [n |-> "dimension_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:12")>>>>, c |-> <<<<<<S("i:491")>>>>, <<<<S("i:-492")>>>>, <<<<S("i:32718")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32719")>>>>>>],
  [n |-> "dimension_non_angular_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Scientific","i:1">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:Architectural","i:4">>>>>>, <<<<<<"e:Fractional","i:5">>>>>>, <<<<<<"e:WindowsDesktop","i:6">>>>>>>>],
  [n |-> "dimension_decilam_separator_char", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"s:.","i:46">>>>>>, c |-> <<<<<<<<"s:A","i:65">>>>>>, <<<<<<"s:,","i:44">>>>>>, <<<<<<"s:~","i:126">>>>>>>>],
  [n |-> "dimension_text_movement_rule", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:MoveLineWithText","i:0">>>>>>, c |-> <<<<<<<<"e:MoveLineWithText","i:0">>>>>>, <<<<<<"e:AddLeaderWhenTextIsMoved","i:1">>>>>>, <<<<<<"e:MoveTextFreely","i:2">>>>>>>>],
  [n |-> "dimension_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AboveLineCenter","i:0">>>>>>, c |-> <<<<<<<<"e:AboveLineCenter","i:0">>>>>>, <<<<<<"e:AboveLineNextToFirstExtension","i:1">>>>>>, <<<<<<"e:AboveLineNextToSecondExtension","i:2">>>>>>, <<<<<<"e:AboveLineCenteredOnFirstExtension","i:3">>>>>>, <<<<<<"e:AboveLineCenteredOnSecondExtension","i:4">>>>>>>>],
  [n |-> "dimension_tolerance_vertical_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Top","i:0">>>>>>, c |-> <<<<<<<<"e:Top","i:0">>>>>>, <<<<<<"e:Middle","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>>>],
  [n |-> "dimension_tolerance_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "alternate_dimensioning_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "alternate_dimensioning_tolerance_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "dimension_text_and_arrow_placement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TextAndArrowsOutsideLines","i:0">>>>>>, c |-> <<<<<<<<"e:TextAndArrowsOutsideLines","i:0">>>>>>, <<<<<<"e:MoveArrowsFirst","i:1">>>>>>, <<<<<<"e:MoveTextFirst","i:2">>>>>>, <<<<<<"e:MoveEitherForBestFit","i:3">>>>>>>>],
  [n |-> "dimension_cursor_controls_text_position", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_text_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_text 60")>>>>, <<<<S("s:a60")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 60 c")>>>>>>],
  [n |-> "dimension_leader_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_lead 61")>>>>, <<<<S("s:a61")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 61 c")>>>>>>],
  [n |-> "arrow_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:arrow_block_na 62")>>>>, <<<<S("s:a62")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 62 c")>>>>>>],
  [n |-> "dimension_line_weight", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:64")>>>>, <<<<S("i:-1")>>>>, <<<<S("i:-2")>>>>, <<<<S("i:-3")>>>>, <<<<S("i:211")>>>>, <<<<S("i:0")>>>>>>],
  [n |-> "dimension_extension_line_weight", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:65")>>>>, <<<<S("i:-1")>>>>, <<<<S("i:-2")>>>>, <<<<S("i:-3")>>>>, <<<<S("i:211")>>>>, <<<<S("i:0")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbDimStyleTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  W(2, <<3>>, 1, 21, FALSE, 0),
  W(3, <<4>>, 1, 21, FALSE, 0),
  W(4, <<6>>, 1, 15, FALSE, 0),
  W(5, <<7>>, 1, 15, FALSE, 0),
  W(6, <<40>>, 1, 21, FALSE, 0),
  W(7, <<41>>, 1, 21, FALSE, 0),
  W(8, <<42>>, 1, 21, FALSE, 0),
  W(9, <<43>>, 1, 21, FALSE, 0),
  W(10, <<44>>, 1, 21, FALSE, 0),
  W(11, <<45>>, 1, 21, FALSE, 0),
  W(12, <<46>>, 1, 21, FALSE, 0),
  W(13, <<47>>, 1, 21, FALSE, 0),
  W(14, <<48>>, 1, 21, FALSE, 0),
  W(15, <<71>>, 1, 21, FALSE, 0),
  W(16, <<72>>, 1, 21, FALSE, 0),
  W(17, <<73>>, 1, 21, FALSE, 0),
  W(18, <<74>>, 1, 21, FALSE, 0),
  W(19, <<75>>, 1, 21, FALSE, 0),
  W(20, <<76>>, 1, 21, FALSE, 0),
  W(21, <<77>>, 1, 21, FALSE, 0),
  W(22, <<78>>, 1, 21, FALSE, 0),
  W(23, <<79>>, 16, 21, FALSE, 0),
  W(24, <<140>>, 1, 21, FALSE, 0),
  W(25, <<141>>, 1, 21, FALSE, 0),
  W(26, <<142>>, 1, 21, FALSE, 0),
  W(27, <<143>>, 1, 21, FALSE, 0),
  W(28, <<144>>, 1, 21, FALSE, 0),
  W(29, <<145>>, 1, 21, FALSE, 0),
  W(30, <<146>>, 1, 21, FALSE, 0),
  W(31, <<147>>, 1, 21, FALSE, 0),
  W(32, <<148>>, 16, 21, FALSE, 0),
  W(33, <<170>>, 1, 21, FALSE, 0),
  W(34, <<171>>, 1, 21, FALSE, 0),
  W(35, <<172>>, 1, 21, FALSE, 0),
  W(36, <<173>>, 1, 21, FALSE, 0),
  W(37, <<174>>, 1, 21, FALSE, 0),
  W(38, <<175>>, 1, 21, FALSE, 0),
  W(39, <<176>>, 1, 21, FALSE, 0),
  W(40, <<177>>, 1, 21, FALSE, 0),
  W(41, <<178>>, 1, 21, FALSE, 0),
  W(42, <<179>>, 16, 21, FALSE, 0),
  W(43, <<270>>, 14, 21, FALSE, 0),
  W(44, <<271>>, 14, 21, FALSE, 0),
  W(45, <<272>>, 14, 21, FALSE, 0),
  W(46, <<273>>, 14, 21, FALSE, 0),
  W(47, <<274>>, 14, 21, FALSE, 0),
  W(48, <<275>>, 14, 21, FALSE, 0),
  W(49, <<276>>, 16, 21, FALSE, 0),
  W(50, <<277>>, 16, 21, FALSE, 0),
  W(51, <<278>>, 16, 21, FALSE, 0),
  W(52, <<279>>, 16, 21, FALSE, 0),
  W(53, <<280>>, 14, 21, FALSE, 0),
  W(19, <<281>>, 14, 21, FALSE, 0),
  W(20, <<282>>, 14, 21, FALSE, 0),
  W(54, <<283>>, 14, 21, FALSE, 0),
  W(55, <<284>>, 14, 21, FALSE, 0),
  W(56, <<285>>, 14, 21, FALSE, 0),
  W(57, <<286>>, 14, 21, FALSE, 0),
  W(58, <<287>>, 14, 21, FALSE, 0),
  W(59, <<288>>, 14, 21, FALSE, 0),
  W(58, <<289>>, 16, 21, FALSE, 0),
  W(60, <<340>>, 14, 21, FALSE, 0),
  W(61, <<341>>, 16, 21, FALSE, 0),
  W(62, <<342>>, 16, 21, FALSE, 0),
  W(4, <<343>>, 16, 21, FALSE, 0),
  W(5, <<344>>, 16, 21, FALSE, 0),
  W(63, <<371>>, 16, 21, FALSE, 0),
  W(64, <<372>>, 16, 21, FALSE, 0)>>,
 rd |-> <<<<2,1,1>>,<<3,2,1>>,<<4,3,1>>,<<6,4,1>>,<<7,5,1>>,<<40,6,1>>,<<41,7,1>>,<<42,8,1>>,<<43,9,1>>,<<44,10,1>>,<<45,11,1>>,<<46,12,1>>,<<47,13,1>>,<<48,14,1>>,<<71,15,1>>,<<72,16,1>>,<<73,17,1>>,<<74,18,1>>,<<75,19,1>>,<<76,20,1>>,<<77,21,1>>,<<78,22,1>>,<<79,23,1>>,<<140,24,1>>,<<141,25,1>>,<<142,26,1>>,<<143,27,1>>,<<144,28,1>>,<<145,29,1>>,<<146,30,1>>,<<147,31,1>>,<<148,32,1>>,<<170,33,1>>,<<171,34,1>>,<<172,35,1>>,<<173,36,1>>,<<174,37,1>>,<<175,38,1>>,<<176,39,1>>,<<177,40,1>>,<<178,41,1>>,<<179,42,1>>,<<270,43,1>>,<<271,44,1>>,<<272,45,1>>,<<273,46,1>>,<<274,47,1>>,<<275,48,1>>,<<276,49,1>>,<<277,50,1>>,<<278,51,1>>,<<279,52,1>>,<<280,53,1>>,<<281,19,1>>,<<282,20,1>>,<<283,54,1>>,<<284,55,1>>,<<285,56,1>>,<<286,57,1>>,<<287,58,1>>,<<288,59,1>>,<<289,58,1>>,<<340,60,1>>,<<341,61,1>>,<<342,62,1>>,<<343,4,1>>,<<344,5,1>>,<<371,63,1>>,<<372,64,1>>>>]

T_LineType ==
[key |-> "T.LineType", tstr |-> "LTYPE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 14,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn LineType")>>>>, <<<<S("s:B-LineType")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "description", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:description 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "alignment_code", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:65")>>>>, c |-> <<<<<<S("i:31")>>>>, <<<<S("i:-32")>>>>, <<<<S("i:32764")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32765")>>>>>>],
  [n |-> "element_count", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:41")>>>>, <<<<S("i:-42")>>>>, <<<<S("i:32763")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32764")>>>>>>],
  [n |-> "total_pattern_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:51.25")>>>>, <<<<S("f:-52.5")>>>>, <<<<S("f:50003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0498046875")>>>>>>],
  [n |-> "dash_dot_space_lengths", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:61.25")>>,<<S("f:-62.5")>>,<<S("f:60003.125")>>>>, <<>>, <<<<S("f:-62.5")>>,<<S("f:61.25")>>>>>>],
  [n |-> "complex_line_type_element_types", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("i:71")>>>>, <<<<S("i:71")>>,<<S("i:-72")>>,<<S("i:32760")>>>>, <<>>, <<<<S("i:-72")>>,<<S("i:71")>>>>>>],
  [n |-> "shape_numbers", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("i:81")>>>>, <<<<S("i:81")>>,<<S("i:-82")>>,<<S("i:32759")>>>>, <<>>, <<<<S("i:-82")>>,<<S("i:81")>>>>>>],
  [n |-> "__styles_handle", ks |-> <<>>, multi |-> TRUE, priv |-> TRUE, d |-> <<>>, c |-> <<<<<<<<"h:A09","s:A09">>>>>>, <<<<<<"h:A09","s:A09">>>>,<<<<"h:FFFFF6","s:FFFFF6">>>>,<<<<"h:0","s:0">>>>>>, <<>>, <<<<<<"h:FFFFF6","s:FFFFF6">>>>,<<<<"h:A09","s:A09">>>>>>>>],
  [n |-> "scale_values", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:101.25")>>,<<S("f:-102.5")>>,<<S("f:100003.125")>>>>, <<>>, <<<<S("f:-102.5")>>,<<S("f:101.25")>>>>>>],
  [n |-> "rotation_angles", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:111.25")>>>>, <<<<S("f:111.25")>>,<<S("f:-112.5")>>,<<S("f:110003.125")>>>>, <<>>, <<<<S("f:-112.5")>>,<<S("f:111.25")>>>>>>],
  [n |-> "x_offsets", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:121.25")>>>>, <<<<S("f:121.25")>>,<<S("f:-122.5")>>,<<S("f:120003.125")>>>>, <<>>, <<<<S("f:-122.5")>>,<<S("f:121.25")>>>>>>],
  [n |-> "y_offsets", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("f:131.25")>>>>, <<<<S("f:131.25")>>,<<S("f:-132.5")>>,<<S("f:130003.125")>>>>, <<>>, <<<<S("f:-132.5")>>,<<S("f:131.25")>>>>>>],
  [n |-> "text_strings", ks |-> <<>>, multi |-> TRUE, priv |-> FALSE, d |-> <<>>, c |-> <<<<<<S("s:text_strings 14")>>>>, <<<<S("s:text_strings 14")>>,<<S("s:a14")>>,<<S("s:")>>>>, <<>>, <<<<S("s:a14")>>,<<S("s:text_strings 14")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbLinetypeTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  W(2, <<3>>, 1, 21, FALSE, 0),
  W(3, <<72>>, 1, 21, FALSE, 0),
  W(4, <<73>>, 1, 21, FALSE, 0),
  W(5, <<40>>, 1, 21, FALSE, 0),
  W(6, <<49>>, 1, 21, FALSE, 0),
  W(7, <<74>>, 14, 21, FALSE, 0),
  W(8, <<75>>, 14, 21, FALSE, 0),
  W(9, <<340>>, 14, 21, FALSE, 0),
  W(10, <<46>>, 14, 21, FALSE, 0),
  W(11, <<50>>, 14, 21, FALSE, 0),
  W(12, <<44>>, 14, 21, FALSE, 0),
  W(13, <<45>>, 14, 21, FALSE, 0),
  W(14, <<9>>, 14, 21, FALSE, 0)>>,
 rd |-> <<<<2,1,1>>,<<3,2,1>>,<<72,3,1>>,<<73,4,1>>,<<40,5,1>>,<<49,6,1>>,<<74,7,1>>,<<75,8,1>>,<<340,9,1>>,<<46,10,1>>,<<50,11,1>>,<<44,12,1>>,<<45,13,1>>,<<9,14,1>>>>]

T_Layer ==
[key |-> "T.Layer", tstr |-> "LAYER", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 7,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn Layer")>>>>, <<<<S("s:B-Layer")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:7")>>>>, c |-> <<<<<<S("i:1")>>>>, <<<<S("i:5")>>>>, <<<<S("i:255")>>>>, <<<<S("i:0")>>>>, <<<<S("i:256")>>>>, <<<<S("i:7")>>>>>>],
  [n |-> "line_type_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:CONTINUOUS")>>>>, c |-> <<<<<<S("s:line_type_name 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "is_layer_plotted", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "line_weight", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:6")>>>>, <<<<S("i:-1")>>>>, <<<<S("i:-2")>>>>, <<<<S("i:-3")>>>>, <<<<S("i:211")>>>>, <<<<S("i:0")>>>>>>],
  [n |-> "__plot_style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A06","s:A06">>>>>>, <<<<<<"h:FFFFF9","s:FFFFF9">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__material_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A07","s:A07">>>>>>, <<<<<<"h:FFFFF8","s:FFFFF8">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "is_layer_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbLayerTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  L(2, 8),
  W(3, <<6>>, 1, 21, FALSE, 0),
  W(4, <<290>>, 16, 21, FALSE, 0),
  W(5, <<370>>, 16, 21, FALSE, 0),
  W(6, <<390>>, 16, 21, FALSE, 0),
  W(7, <<347>>, 18, 21, FALSE, 0)>>,
 rd |-> <<<<2,1,1>>,<<62,2,1>>,<<6,3,1>>,<<290,4,1>>,<<370,5,1>>,<<390,6,1>>,<<347,7,1>>>>]

T_Style ==
[key |-> "T.Style", tstr |-> "STYLE", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 8,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn Style")>>>>, <<<<S("s:B-Style")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:21.25")>>>>, <<<<S("f:-22.5")>>>>, <<<<S("f:20003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0205078125")>>>>>>],
  [n |-> "width_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:31.25")>>>>, <<<<S("f:-32.5")>>>>, <<<<S("f:30003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0302734375")>>>>>>],
  [n |-> "oblique_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:41.25")>>>>, <<<<S("f:-42.5")>>>>, <<<<S("f:40003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0400390625")>>>>>>],
  [n |-> "text_generation_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:51")>>>>, <<<<S("i:-52")>>>>, <<<<S("i:32762")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32763")>>>>>>],
  [n |-> "last_height_used", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.2")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "primary_font_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:txt")>>>>, c |-> <<<<<<S("s:primary_font_f 7")>>>>, <<<<S("s:a7")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 7 c")>>>>>>],
  [n |-> "big_font_file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:big_font_file_ 8")>>>>, <<<<S("s:a8")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 8 c")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbTextStyleTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  W(2, <<40>>, 1, 21, FALSE, 0),
  W(3, <<41>>, 1, 21, FALSE, 0),
  W(4, <<50>>, 1, 21, FALSE, 0),
  W(5, <<71>>, 1, 21, FALSE, 0),
  W(6, <<42>>, 1, 21, FALSE, 0),
  W(7, <<3>>, 1, 21, FALSE, 0),
  W(8, <<4>>, 1, 21, FALSE, 0)>>,
 rd |-> <<<<2,1,1>>,<<40,2,1>>,<<41,3,1>>,<<50,4,1>>,<<71,5,1>>,<<42,6,1>>,<<3,7,1>>,<<4,8,1>>>>]

T_Ucs ==
[key |-> "T.Ucs", tstr |-> "UCS", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 17,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn Ucs")>>>>, <<<<S("s:B-Ucs")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:81.25"),S("f:91.25"),S("f:101.25")>>>>, <<<<S("f:-82.5"),S("f:-92.5"),S("f:-102.5")>>>>, <<<<S("f:80003.125"),S("f:90003.125"),S("f:100003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "x_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:121.25"),S("f:131.25"),S("f:141.25")>>>>, <<<<S("f:-122.5"),S("f:-132.5"),S("f:-142.5")>>>>, <<<<S("f:120003.125"),S("f:130003.125"),S("f:140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "y_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25"),S("f:171.25"),S("f:181.25")>>>>, <<<<S("f:-162.5"),S("f:-172.5"),S("f:-182.5")>>>>, <<<<S("f:160003.125"),S("f:170003.125"),S("f:180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "orthographic_view_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:61.25")>>>>, <<<<S("f:-62.5")>>>>, <<<<S("f:60003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0595703125")>>>>>>],
  [n |-> "__base_ucs_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A07","s:A07">>>>>>, <<<<<<"h:FFFFF8","s:FFFFF8">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "orthographic_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Top","i:1">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "orthographic_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:361.25"),S("f:371.25"),S("f:381.25")>>>>, <<<<S("f:-362.5"),S("f:-372.5"),S("f:-382.5")>>>>, <<<<S("f:360003.125"),S("f:370003.125"),S("f:380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbUCSTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  W(2, <<10,20,30>>, 1, 21, FALSE, 0),
  W(3, <<11,21,31>>, 1, 21, FALSE, 0),
  W(4, <<12,22,32>>, 1, 21, FALSE, 0),
  W(5, <<79>>, 16, 21, FALSE, 0),
  W(6, <<146>>, 16, 21, FALSE, 0),
  W(7, <<346>>, 16, 21, FALSE, 0),
  W(8, <<71>>, 16, 21, FALSE, 0),
  W(9, <<13,23,33>>, 16, 21, FALSE, 0)>>,
 rd |-> <<<<2,1,1>>,<<10,2,1>>,<<20,2,2>>,<<30,2,3>>,<<11,3,1>>,<<21,3,2>>,<<31,3,3>>,<<12,4,1>>,<<22,4,2>>,<<32,4,3>>,<<79,5,1>>,<<146,6,1>>,<<346,7,1>>,<<71,8,1>>,<<13,9,1>>,<<23,9,2>>,<<33,9,3>>>>]

T_View ==
[key |-> "T.View", tstr |-> "VIEW", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 36,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn View")>>>>, <<<<S("s:B-View")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "view_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:21.25")>>>>, <<<<S("f:-22.5")>>>>, <<<<S("f:20003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0205078125")>>>>>>],
  [n |-> "view_center_point", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:121.25"),S("f:131.25")>>>>, <<<<S("f:-122.5"),S("f:-132.5")>>>>, <<<<S("f:120003.125"),S("f:130003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:41.25")>>>>, <<<<S("f:-42.5")>>>>, <<<<S("f:40003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0400390625")>>>>>>],
  [n |-> "view_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:201.25"),S("f:211.25"),S("f:221.25")>>>>, <<<<S("f:-202.5"),S("f:-212.5"),S("f:-222.5")>>>>, <<<<S("f:200003.125"),S("f:210003.125"),S("f:220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "target_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25"),S("f:251.25"),S("f:261.25")>>>>, <<<<S("f:-242.5"),S("f:-252.5"),S("f:-262.5")>>>>, <<<<S("f:240003.125"),S("f:250003.125"),S("f:260003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "lens_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:71.25")>>>>, <<<<S("f:-72.5")>>>>, <<<<S("f:70003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0693359375")>>>>>>],
  [n |-> "front_clipping_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:81.25")>>>>, <<<<S("f:-82.5")>>>>, <<<<S("f:80003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0791015625")>>>>>>],
  [n |-> "back_clipping_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:91.25")>>>>, <<<<S("f:-92.5")>>>>, <<<<S("f:90003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0888671875")>>>>>>],
  [n |-> "twist_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "view_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:111")>>>>, <<<<S("i:-112")>>>>, <<<<S("i:32756")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32757")>>>>>>],
  [n |-> "render_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Classic2D","i:0">>>>>>, c |-> <<<<<<<<"e:Classic2D","i:0">>>>>>, <<<<<<"e:Wireframe","i:1">>>>>>, <<<<<<"e:HiddenLine","i:2">>>>>>, <<<<<<"e:FlatShaded","i:3">>>>>>, <<<<<<"e:GouraudShaded","i:4">>>>>>, <<<<<<"e:FlatShadedWithWireframe","i:5">>>>>>, <<<<<<"e:GouraudShadedWithWireframe","i:6">>>>>>>>],
  [n |-> "is_associated_ucs_present", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_camera_plottable", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__background_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A0F","s:A0F">>>>>>, <<<<<<"h:FFFFF0","s:FFFFF0">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__selection_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A10","s:A10">>>>>>, <<<<<<"h:FFFFEF","s:FFFFEF">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__visual_style_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A11","s:A11">>>>>>, <<<<<<"h:FFFFEE","s:FFFFEE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__sun_ownership_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A12","s:A12">>>>>>, <<<<<<"h:FFFFED","s:FFFFED">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "ucs_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:761.25"),S("f:771.25"),S("f:781.25")>>>>, <<<<S("f:-762.5"),S("f:-772.5"),S("f:-782.5")>>>>, <<<<S("f:760003.125"),S("f:770003.125"),S("f:780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_x_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:801.25"),S("f:811.25"),S("f:821.25")>>>>, <<<<S("f:-802.5"),S("f:-812.5"),S("f:-822.5")>>>>, <<<<S("f:800003.125"),S("f:810003.125"),S("f:820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_y_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:841.25"),S("f:851.25"),S("f:861.25")>>>>, <<<<S("f:-842.5"),S("f:-852.5"),S("f:-862.5")>>>>, <<<<S("f:840003.125"),S("f:850003.125"),S("f:860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "orthographic_view_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "ucs_elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:231.25")>>>>, <<<<S("f:-232.5")>>>>, <<<<S("f:230003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2255859375")>>>>>>],
  [n |-> "__ucs_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A18","s:A18">>>>>>, <<<<<<"h:FFFFE7","s:FFFFE7">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__base_ucs_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A19","s:A19">>>>>>, <<<<<<"h:FFFFE6","s:FFFFE6">>>>>>, <<<<<<"h:0","s:0">>>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbViewTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  W(2, <<40>>, 1, 21, FALSE, 0),
  W(3, <<10,20>>, 1, 21, FALSE, 0),
  W(4, <<41>>, 1, 21, FALSE, 0),
  W(5, <<11,21,31>>, 1, 21, FALSE, 0),
  W(6, <<12,22,32>>, 1, 21, FALSE, 0),
  W(7, <<42>>, 1, 21, FALSE, 0),
  W(8, <<43>>, 1, 21, FALSE, 0),
  W(9, <<44>>, 1, 21, FALSE, 0),
  W(10, <<50>>, 1, 21, FALSE, 0),
  W(11, <<71>>, 1, 21, FALSE, 0),
  W(12, <<281>>, 16, 21, FALSE, 0),
  W(13, <<72>>, 16, 21, FALSE, 0),
  W(14, <<73>>, 18, 21, FALSE, 0),
  W(15, <<332>>, 18, 21, FALSE, 0),
  W(16, <<334>>, 18, 21, FALSE, 0),
  W(17, <<338>>, 18, 21, FALSE, 0),
  W(18, <<361>>, 18, 21, FALSE, 0),
  W(19, <<110,120,130>>, 16, 21, FALSE, 13),
  W(20, <<111,121,131>>, 16, 21, FALSE, 13),
  W(21, <<112,122,132>>, 16, 21, FALSE, 13),
  W(22, <<79>>, 16, 21, FALSE, 13),
  W(23, <<146>>, 16, 21, FALSE, 13),
  W(24, <<345>>, 18, 21, FALSE, 13),
  W(25, <<346>>, 18, 21, FALSE, 13)>>,
 rd |-> <<<<2,1,1>>,<<40,2,1>>,<<10,3,1>>,<<20,3,2>>,<<41,4,1>>,<<11,5,1>>,<<21,5,2>>,<<31,5,3>>,<<12,6,1>>,<<22,6,2>>,<<32,6,3>>,<<42,7,1>>,<<43,8,1>>,<<44,9,1>>,<<50,10,1>>,<<71,11,1>>,<<281,12,1>>,<<72,13,1>>,<<73,14,1>>,<<332,15,1>>,<<334,16,1>>,<<338,17,1>>,<<361,18,1>>,<<110,19,1>>,<<120,19,2>>,<<130,19,3>>,<<111,20,1>>,<<121,20,2>>,<<131,20,3>>,<<112,21,1>>,<<122,21,2>>,<<132,21,3>>,<<79,22,1>>,<<146,23,1>>,<<345,24,1>>,<<346,25,1>>>>]

T_ViewPort ==
[key |-> "T.ViewPort", tstr |-> "VPORT", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> FALSE, ns |-> 63,
 fields |-> <<
  [n |-> "name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:Tn ViewPort")>>>>, <<<<S("s:B-ViewPort")>>>>, <<<<S("s:x")>>>>>>],
  [n |-> "lower_left", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:81.25"),S("f:91.25")>>>>, <<<<S("f:-82.5"),S("f:-92.5")>>>>, <<<<S("f:80003.125"),S("f:90003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "upper_right", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:121.25"),S("f:131.25")>>>>, <<<<S("f:-122.5"),S("f:-132.5")>>>>, <<<<S("f:120003.125"),S("f:130003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_center", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25"),S("f:171.25")>>>>, <<<<S("f:-162.5"),S("f:-172.5")>>>>, <<<<S("f:160003.125"),S("f:170003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "snap_base_point", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25"),S("f:211.25")>>>>, <<<<S("f:-202.5"),S("f:-212.5")>>>>, <<<<S("f:200003.125"),S("f:210003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "snap_spacing", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:241.25"),S("f:251.25")>>>>, <<<<S("f:-242.5"),S("f:-252.5")>>>>, <<<<S("f:240003.125"),S("f:250003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "grid_spacing", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:281.25"),S("f:291.25")>>>>, <<<<S("f:-282.5"),S("f:-292.5")>>>>, <<<<S("f:280003.125"),S("f:290003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:321.25"),S("f:331.25"),S("f:341.25")>>>>, <<<<S("f:-322.5"),S("f:-332.5"),S("f:-342.5")>>>>, <<<<S("f:320003.125"),S("f:330003.125"),S("f:340003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "target_view_point", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:361.25"),S("f:371.25"),S("f:381.25")>>>>, <<<<S("f:-362.5"),S("f:-372.5"),S("f:-382.5")>>>>, <<<<S("f:360003.125"),S("f:370003.125"),S("f:380003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:101.25")>>>>, <<<<S("f:-102.5")>>>>, <<<<S("f:100003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.0986328125")>>>>>>],
  [n |-> "view_port_aspect_ratio", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:111.25")>>>>, <<<<S("f:-112.5")>>>>, <<<<S("f:110003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1083984375")>>>>>>],
  [n |-> "lens_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:50.0")>>>>, c |-> <<<<<<S("f:121.25")>>>>, <<<<S("f:-122.5")>>>>, <<<<S("f:120003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1181640625")>>>>>>],
  [n |-> "front_clipping_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:131.25")>>>>, <<<<S("f:-132.5")>>>>, <<<<S("f:130003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1279296875")>>>>>>],
  [n |-> "back_clipping_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:141.25")>>>>, <<<<S("f:-142.5")>>>>, <<<<S("f:140003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1376953125")>>>>>>],
  [n |-> "snap_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:151.25")>>>>, <<<<S("f:-152.5")>>>>, <<<<S("f:150003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1474609375")>>>>>>],
  [n |-> "view_twist_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:161.25")>>>>, <<<<S("f:-162.5")>>>>, <<<<S("f:160003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1572265625")>>>>>>],
  [n |-> "view_mode", ks |-> <<"flags">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1")>>>>, <<<<S("i:2")>>>>, <<<<S("i:4")>>>>, <<<<S("i:8")>>>>, <<<<S("i:16")>>>>, <<<<S("i:31")>>>>, <<<<S("i:0")>>>>>>],
  [n |-> "circle_sides", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1000")>>>>, c |-> <<<<<<S("i:181")>>>>, <<<<S("i:-182")>>>>, <<<<S("i:32749")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32750")>>>>>>],
  [n |-> "fast_zoom", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "ucs_icon", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:3")>>>>, c |-> <<<<<<S("i:201")>>>>, <<<<S("i:-202")>>>>, <<<<S("i:32747")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32748")>>>>>>],
  [n |-> "snap_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "grid_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "snap_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Standard","i:0">>>>>>, c |-> <<<<<<<<"e:Standard","i:0">>>>>>, <<<<<<"e:Isometric","i:1">>>>>>>>],
  [n |-> "snap_isometric_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Left","i:0">>>>>>, c |-> <<<<<<<<"e:Left","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Right","i:2">>>>>>>>],
  [n |-> "plot_style_sheet", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:plot_style_she 25")>>>>, <<<<S("s:a25")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 25 c")>>>>>>],
  [n |-> "render_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Classic2D","i:0">>>>>>, c |-> <<<<<<<<"e:Classic2D","i:0">>>>>>, <<<<<<"e:Wireframe","i:1">>>>>>, <<<<<<"e:HiddenLine","i:2">>>>>>, <<<<<<"e:FlatShaded","i:3">>>>>>, <<<<<<"e:GouraudShaded","i:4">>>>>>, <<<<<<"e:FlatShadedWithWireframe","i:5">>>>>>, <<<<<<"e:GouraudShadedWithWireframe","i:6">>>>>>>>],
  [n |-> "has_own_ucs", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "ucs_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1121.25"),S("f:1131.25"),S("f:1141.25")>>>>, <<<<S("f:-1122.5"),S("f:-1132.5"),S("f:-1142.5")>>>>, <<<<S("f:1120003.125"),S("f:1130003.125"),S("f:1140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_x_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1161.25"),S("f:1171.25"),S("f:1181.25")>>>>, <<<<S("f:-1162.5"),S("f:-1172.5"),S("f:-1182.5")>>>>, <<<<S("f:1160003.125"),S("f:1170003.125"),S("f:1180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_y_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:1201.25"),S("f:1211.25"),S("f:1221.25")>>>>, <<<<S("f:-1202.5"),S("f:-1212.5"),S("f:-1222.5")>>>>, <<<<S("f:1200003.125"),S("f:1210003.125"),S("f:1220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "orthographic_view_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "ucs_elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:-322.5")>>>>, <<<<S("f:320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3134765625")>>>>>>],
  [n |-> "__ucs_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A21","s:A21">>>>>>, <<<<<<"h:FFFFDE","s:FFFFDE">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__base_ucs_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A22","s:A22">>>>>>, <<<<<<"h:FFFFDD","s:FFFFDD">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "shade_plot_setting", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:FacesShadedEdgeNotHighlighted","i:0">>>>>>, c |-> <<<<<<<<"e:FacesShadedEdgeNotHighlighted","i:0">>>>>>, <<<<<<"e:FacesShadedEdgesHighlightedInBlack","i:1">>>>>>, <<<<<<"e:FacesNotFilledEdgesInEntityColor","i:2">>>>>>, <<<<<<"e:FacesInEntityColorEdgesInBlack","i:3">>>>>>>>],
  [n |-> "major_grid_lines", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "__background_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A25","s:A25">>>>>>, <<<<<<"h:FFFFDA","s:FFFFDA">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__shade_plot_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A26","s:A26">>>>>>, <<<<<<"h:FFFFD9","s:FFFFD9">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "__visual_style_object_handle", ks |-> <<>>, multi |-> FALSE, priv |-> TRUE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A27","s:A27">>>>>>, <<<<<<"h:FFFFD8","s:FFFFD8">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "is_default_lighting_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "default_lighting_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:OneDistantLight","i:0">>>>>>, c |-> <<<<<<<<"e:OneDistantLight","i:0">>>>>>, <<<<<<"e:TwoDistantLights","i:1">>>>>>>>],
  [n |-> "brightness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:421.25")>>>>, <<<<S("f:-422.5")>>>>, <<<<S("f:420003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4111328125")>>>>>>],
  [n |-> "contrast", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:431.25")>>>>, <<<<S("f:-432.5")>>>>, <<<<S("f:430003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.4208984375")>>>>>>],
  [n |-> "ambient_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:7")>>>>, c |-> <<<<<<S("i:45")>>>>, <<<<S("i:256")>>>>, <<<<S("i:95")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "ambient_color_i32", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:451")>>>>, <<<<S("i:-452")>>>>, <<<<S("i:2147483602")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-2147483603")>>>>>>],
  [n |-> "ambient_color_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:BLACK")>>>>, c |-> <<<<<<S("s:ambient_color_ 46")>>>>, <<<<S("s:a46")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 46 c")>>>>>>]>>,
 wr |-> <<
  H(5, 1, 21),
  M(100, "s:AcDbSymbolTableRecord", 1, 21),
  M(100, "s:AcDbViewportTableRecord", 1, 21),
  W(1, <<2>>, 1, 21, FALSE, 0),
  M(70, "i:0", 1, 21),
  W(2, <<10,20>>, 1, 21, FALSE, 0),
  W(3, <<11,21>>, 1, 21, FALSE, 0),
  W(4, <<12,22>>, 1, 21, FALSE, 0),
  W(5, <<13,23>>, 1, 21, FALSE, 0),
  W(6, <<14,24>>, 1, 21, FALSE, 0),
  W(7, <<15,25>>, 1, 21, FALSE, 0),
  W(8, <<16,26,36>>, 1, 21, FALSE, 0),
  W(9, <<17,27,37>>, 1, 21, FALSE, 0),
  W(10, <<40>>, 1, 17, FALSE, 0),
  W(11, <<41>>, 1, 17, FALSE, 0),
  W(12, <<42>>, 1, 21, FALSE, 0),
  W(13, <<43>>, 1, 21, FALSE, 0),
  W(14, <<44>>, 1, 21, FALSE, 0),
  W(10, <<45>>, 18, 21, FALSE, 0),
  W(15, <<50>>, 1, 21, FALSE, 0),
  W(16, <<51>>, 1, 21, FALSE, 0),
  W(17, <<71>>, 1, 21, FALSE, 0),
  W(18, <<72>>, 1, 21, FALSE, 0),
  W(19, <<73>>, 1, 17, FALSE, 0),
  W(20, <<74>>, 1, 21, FALSE, 0),
  W(21, <<75>>, 1, 17, FALSE, 0),
  W(22, <<76>>, 1, 17, FALSE, 0),
  W(23, <<77>>, 1, 17, FALSE, 0),
  W(24, <<78>>, 1, 17, FALSE, 0),
  W(25, <<1>>, 18, 21, FALSE, 0),
  W(26, <<281>>, 16, 21, FALSE, 0),
  W(27, <<65>>, 16, 17, FALSE, 0),
  W(28, <<110,120,130>>, 16, 21, FALSE, 27),
  W(29, <<111,121,131>>, 16, 21, FALSE, 27),
  W(30, <<112,122,132>>, 16, 21, FALSE, 27),
  W(31, <<79>>, 16, 21, FALSE, 27),
  W(32, <<146>>, 16, 21, FALSE, 27),
  W(33, <<345>>, 16, 21, FALSE, 27),
  W(34, <<346>>, 16, 21, FALSE, 27),
  W(35, <<170>>, 18, 21, FALSE, 0),
  W(36, <<61>>, 18, 21, FALSE, 0),
  W(37, <<332>>, 18, 21, FALSE, 0),
  W(38, <<333>>, 18, 21, FALSE, 0),
  W(39, <<348>>, 18, 21, FALSE, 0),
  W(40, <<292>>, 18, 21, FALSE, 0),
  W(41, <<282>>, 18, 21, FALSE, 0),
  W(42, <<141>>, 18, 21, FALSE, 0),
  W(43, <<142>>, 18, 21, FALSE, 0),
  W(44, <<62>>, 18, 21, TRUE, 0),
  W(45, <<421>>, 18, 21, TRUE, 0),
  W(46, <<431>>, 18, 21, TRUE, 0)>>,
 rd |-> <<<<2,1,1>>,<<10,2,1>>,<<20,2,2>>,<<11,3,1>>,<<21,3,2>>,<<12,4,1>>,<<22,4,2>>,<<13,5,1>>,<<23,5,2>>,<<14,6,1>>,<<24,6,2>>,<<15,7,1>>,<<25,7,2>>,<<16,8,1>>,<<26,8,2>>,<<36,8,3>>,<<17,9,1>>,<<27,9,2>>,<<37,9,3>>,<<40,10,1>>,<<41,11,1>>,<<42,12,1>>,<<43,13,1>>,<<44,14,1>>,<<45,10,1>>,<<50,15,1>>,<<51,16,1>>,<<71,17,1>>,<<72,18,1>>,<<73,19,1>>,<<74,20,1>>,<<75,21,1>>,<<76,22,1>>,<<77,23,1>>,<<78,24,1>>,<<1,25,1>>,<<281,26,1>>,<<65,27,1>>,<<110,28,1>>,<<120,28,2>>,<<130,28,3>>,<<111,29,1>>,<<121,29,2>>,<<131,29,3>>,<<112,30,1>>,<<122,30,2>>,<<132,30,3>>,<<79,31,1>>,<<146,32,1>>,<<345,33,1>>,<<346,34,1>>,<<170,35,1>>,<<61,36,1>>,<<332,37,1>>,<<333,38,1>>,<<348,39,1>>,<<292,40,1>>,<<282,41,1>>,<<141,42,1>>,<<142,43,1>>,<<62,44,1>>,<<421,45,1>>,<<431,46,1>>>>]

Kinds == <<T_AppId, T_BlockRecord, T_DimStyle, T_LineType, T_Layer, T_Style, T_Ucs, T_View, T_ViewPort>>
================================================================================
