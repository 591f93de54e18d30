---------------------------- MODULE RecHeader ----------------------------
(* Record catalogue, drafted from the DXF record definitions by tools/xml2tla.py and
   frozen here: what each record kind contains, with which group codes, in which file
   versions, and the values the model assigns to each field.  See Records.tla. *)
EXTENDS RecOps

HeaderRec ==
[key |-> "H", tstr |-> "HEADER", min |-> 1, max |-> 21, nowire |-> FALSE, noread |-> TRUE, ns |-> 0,
 fields |-> <<
  [n |-> "maintenance_version", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:11")>>>>, <<<<S("i:-12")>>>>, <<<<S("i:32766")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32767")>>>>>>],
  [n |-> "drawing_code_page", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:ANSI_1252")>>>>, c |-> <<<<<<S("s:drawing_code_p 2")>>>>, <<<<S("s:a2")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 2 c")>>>>>>],
  [n |-> "last_saved_by", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:last_saved_by 3")>>>>, <<<<S("s:a3")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 3 c")>>>>>>],
  [n |-> "required_versions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:41")>>>>, <<<<S("i:-42")>>>>, <<<<S("i:9000000000000040")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-9000000000000040")>>>>>>],
  [n |-> "insertion_base", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:201.25"),S("f:211.25"),S("f:221.25")>>>>, <<<<S("f:-202.5"),S("f:-212.5"),S("f:-222.5")>>>>, <<<<S("f:200003.125"),S("f:210003.125"),S("f:220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "minimum_drawing_extents", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:241.25"),S("f:251.25"),S("f:261.25")>>>>, <<<<S("f:-242.5"),S("f:-252.5"),S("f:-262.5")>>>>, <<<<S("f:240003.125"),S("f:250003.125"),S("f:260003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "maximum_drawing_extents", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:281.25"),S("f:291.25"),S("f:301.25")>>>>, <<<<S("f:-282.5"),S("f:-292.5"),S("f:-302.5")>>>>, <<<<S("f:280003.125"),S("f:290003.125"),S("f:300003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "minimum_drawing_limits", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:321.25"),S("f:331.25")>>>>, <<<<S("f:-322.5"),S("f:-332.5")>>>>, <<<<S("f:320003.125"),S("f:330003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "maximum_drawing_limits", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:12.0"),S("f:9.0")>>>>, c |-> <<<<<<S("f:361.25"),S("f:371.25")>>>>, <<<<S("f:-362.5"),S("f:-372.5")>>>>, <<<<S("f:360003.125"),S("f:370003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "draw_orthogonal_lines", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_regen_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "fill_mode_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_quick_text_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "mirror_text", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "drag_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Auto","i:2">>>>>>, c |-> <<<<<<<<"e:Off","i:0">>>>>>, <<<<<<"e:On","i:1">>>>>>, <<<<<<"e:Auto","i:2">>>>>>>>],
  [n |-> "line_type_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:161.25")>>>>, <<<<S("f:-162.5")>>>>, <<<<S("f:160003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1572265625")>>>>>>],
  [n |-> "object_snap_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:37")>>>>, c |-> <<<<<<S("i:171")>>>>, <<<<S("i:-172")>>>>, <<<<S("i:32750")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32751")>>>>>>],
  [n |-> "attribute_visibility", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Normal","i:1">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Normal","i:1">>>>>>, <<<<<<"e:All","i:2">>>>>>>>],
  [n |-> "default_text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.2")>>>>, c |-> <<<<<<S("f:191.25")>>>>, <<<<S("f:-192.5")>>>>, <<<<S("f:190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1865234375")>>>>>>],
  [n |-> "trace_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.05")>>>>, c |-> <<<<<<S("f:201.25")>>>>, <<<<S("f:-202.5")>>>>, <<<<S("f:200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.1962890625")>>>>>>],
  [n |-> "text_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:text_style 21")>>>>, <<<<S("s:a21")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 21 c")>>>>>>],
  [n |-> "current_layer", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:0")>>>>, c |-> <<<<<<S("s:current_layer 22")>>>>, <<<<S("s:a22")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 22 c")>>>>>>],
  [n |-> "current_entity_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:BYLAYER")>>>>, c |-> <<<<<<S("s:current_entity 23")>>>>, <<<<S("s:a23")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 23 c")>>>>>>],
  [n |-> "current_entity_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:256")>>>>, c |-> <<<<<<S("i:25")>>>>, <<<<S("i:256")>>>>, <<<<S("i:75")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "current_entity_line_type_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:251.25")>>>>, <<<<S("f:-252.5")>>>>, <<<<S("f:250003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2451171875")>>>>>>],
  [n |-> "retain_deleted_objects", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "display_silhouette_curves_in_wireframe_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "solid_visual_style_pointer", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:A1C","s:A1C">>>>>>, <<<<<<"h:FFFFE3","s:FFFFE3">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "dimensioning_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:291.25")>>>>, <<<<S("f:-292.5")>>>>, <<<<S("f:290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2841796875")>>>>>>],
  [n |-> "dimensioning_arrow_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.18")>>>>, c |-> <<<<<<S("f:301.25")>>>>, <<<<S("f:-302.5")>>>>, <<<<S("f:300003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.2939453125")>>>>>>],
  [n |-> "dimension_extension_line_offset", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0625")>>>>, c |-> <<<<<<S("f:311.25")>>>>, <<<<S("f:-312.5")>>>>, <<<<S("f:310003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3037109375")>>>>>>],
  [n |-> "dimension_line_increment", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.38")>>>>, c |-> <<<<<<S("f:321.25")>>>>, <<<<S("f:-322.5")>>>>, <<<<S("f:320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3134765625")>>>>>>],
  [n |-> "dimension_distance_rounding_value", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:331.25")>>>>, <<<<S("f:-332.5")>>>>, <<<<S("f:330003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3232421875")>>>>>>],
  [n |-> "dimension_line_extension", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:341.25")>>>>, <<<<S("f:-342.5")>>>>, <<<<S("f:340003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3330078125")>>>>>>],
  [n |-> "dimension_extension_line_extension", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.18")>>>>, c |-> <<<<<<S("f:351.25")>>>>, <<<<S("f:-352.5")>>>>, <<<<S("f:350003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3427734375")>>>>>>],
  [n |-> "dimension_plus_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:361.25")>>>>, <<<<S("f:-362.5")>>>>, <<<<S("f:360003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3525390625")>>>>>>],
  [n |-> "dimension_minus_tolerance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:371.25")>>>>, <<<<S("f:-372.5")>>>>, <<<<S("f:370003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3623046875")>>>>>>],
  [n |-> "dimensioning_text_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.18")>>>>, c |-> <<<<<<S("f:381.25")>>>>, <<<<S("f:-382.5")>>>>, <<<<S("f:380003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3720703125")>>>>>>],
  [n |-> "center_mark_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.09")>>>>, c |-> <<<<<<S("f:391.25")>>>>, <<<<S("f:-392.5")>>>>, <<<<S("f:390003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3818359375")>>>>>>],
  [n |-> "dimensioning_tick_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:401.25")>>>>, <<<<S("f:-402.5")>>>>, <<<<S("f:400003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.3916015625")>>>>>>],
  [n |-> "generate_dimension_tolerances", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "generate_dimension_limits", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_text_inside_horizontal", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_text_outside_horizontal", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "suppress_first_dimension_extension_line", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "suppress_second_dimension_extension_line", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "text_above_dimension_line", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_unit_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "arrow_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:arrow_block_na 49")>>>>, <<<<S("s:a49")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 49 c")>>>>>>],
  [n |-> "create_associative_dimensioning", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "recompute_dimensions_while_dragging", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimensioning_suffix", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimensioning_s 52")>>>>, <<<<S("s:a52")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 52 c")>>>>>>],
  [n |-> "alternate_dimensioning_suffix", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:alternate_dime 53")>>>>, <<<<S("s:a53")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 53 c")>>>>>>],
  [n |-> "use_alternate_dimensioning", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "alternate_dimensioning_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:2")>>>>, c |-> <<<<<<S("i:551")>>>>, <<<<S("i:-552")>>>>, <<<<S("i:32712")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32713")>>>>>>],
  [n |-> "alternate_dimensioning_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:25.4")>>>>, c |-> <<<<<<S("f:561.25")>>>>, <<<<S("f:-562.5")>>>>, <<<<S("f:560003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.5478515625")>>>>>>],
  [n |-> "dimension_linear_measurements_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:571.25")>>>>, <<<<S("f:-572.5")>>>>, <<<<S("f:570003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.5576171875")>>>>>>],
  [n |-> "force_dimension_line_extensions_outside_if_text_is", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_vertical_text_position", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:591.25")>>>>, <<<<S("f:-592.5")>>>>, <<<<S("f:590003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.5771484375")>>>>>>],
  [n |-> "force_dimension_text_inside_extensions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "suppress_outside_extension_dimension_lines", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_separate_arrow_blocks_for_dimensions", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "first_arrow_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:first_arrow_bl 63")>>>>, <<<<S("s:a63")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 63 c")>>>>>>],
  [n |-> "second_arrow_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:second_arrow_b 64")>>>>, <<<<S("s:a64")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 64 c")>>>>>>],
  [n |-> "dimension_style_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_styl 65")>>>>, <<<<S("s:a65")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 65 c")>>>>>>],
  [n |-> "dimension_line_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:67")>>>>, <<<<S("i:256")>>>>, <<<<S("i:117")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_extension_line_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:68")>>>>, <<<<S("i:256")>>>>, <<<<S("i:118")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_text_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:69")>>>>, <<<<S("i:256")>>>>, <<<<S("i:119")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_tolerance_display_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:691.25")>>>>, <<<<S("f:-692.5")>>>>, <<<<S("f:690003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6748046875")>>>>>>],
  [n |-> "dimension_line_gap", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.09")>>>>, c |-> <<<<<<S("f:701.25")>>>>, <<<<S("f:-702.5")>>>>, <<<<S("f:700003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.6845703125")>>>>>>],
  [n |-> "dimension_text_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:AboveLineCenter","i:0">>>>>>, c |-> <<<<<<<<"e:AboveLineCenter","i:0">>>>>>, <<<<<<"e:AboveLineNextToFirstExtension","i:1">>>>>>, <<<<<<"e:AboveLineNextToSecondExtension","i:2">>>>>>, <<<<<<"e:AboveLineCenteredOnFirstExtension","i:3">>>>>>, <<<<<<"e:AboveLineCenteredOnSecondExtension","i:4">>>>>>>>],
  [n |-> "dimension_tolerance_vertical_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Middle","i:1">>>>>>, c |-> <<<<<<<<"e:Top","i:0">>>>>>, <<<<<<"e:Middle","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>>>],
  [n |-> "dimension_tolerance_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "alternate_dimensioning_zero_supression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "alternate_dimensioning_tolerance_zero_supression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "dimension_text_and_arrow_placement", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:TextAndArrowsOutsideLines","i:0">>>>>>, c |-> <<<<<<<<"e:TextAndArrowsOutsideLines","i:0">>>>>>, <<<<<<"e:MoveArrowsFirst","i:1">>>>>>, <<<<<<"e:MoveTextFirst","i:2">>>>>>, <<<<<<"e:MoveEitherForBestFit","i:3">>>>>>>>],
  [n |-> "dimension_cursor_controls_text_position", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_unit_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Decimal","i:2">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:ArchitecturalStacked","i:4">>>>>>, <<<<<<"e:FractionalStacked","i:5">>>>>>, <<<<<<"e:Architectural","i:6">>>>>>, <<<<<<"e:Fractional","i:7">>>>>>>>],
  [n |-> "dimension_unit_tolerance_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:4")>>>>, c |-> <<<<<<S("i:791")>>>>, <<<<S("i:-792")>>>>, <<<<S("i:32688")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32689")>>>>>>],
  [n |-> "dimension_tolerance_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:4")>>>>, c |-> <<<<<<S("i:801")>>>>, <<<<S("i:-802")>>>>, <<<<S("i:32687")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32688")>>>>>>],
  [n |-> "alternate_dimensioning_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Decimal","i:2">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:ArchitecturalStacked","i:4">>>>>>, <<<<<<"e:FractionalStacked","i:5">>>>>>, <<<<<<"e:Architectural","i:6">>>>>>, <<<<<<"e:Fractional","i:7">>>>>>>>],
  [n |-> "alternate_dimensioning_tolerance_decimal_places", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:2")>>>>, c |-> <<<<<<S("i:821")>>>>, <<<<S("i:-822")>>>>, <<<<S("i:32685")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32686")>>>>>>],
  [n |-> "dimension_text_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:dimension_text 83")>>>>, <<<<S("s:a83")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 83 c")>>>>>>],
  [n |-> "dimensioning_angle_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DecimalDegrees","i:0">>>>>>, c |-> <<<<<<<<"e:DecimalDegrees","i:0">>>>>>, <<<<<<"e:DegreesMinutesSeconds","i:1">>>>>>, <<<<<<"e:Gradians","i:2">>>>>>, <<<<<<"e:Radians","i:3">>>>>>, <<<<<<"e:SurveyorsUnits","i:4">>>>>>>>],
  [n |-> "angular_dimension_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:851")>>>>, <<<<S("i:-852")>>>>, <<<<S("i:32682")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32683")>>>>>>],
  [n |-> "alternate_dimensioning_unit_rounding", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:861.25")>>>>, <<<<S("f:-862.5")>>>>, <<<<S("f:860003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.8408203125")>>>>>>],
  [n |-> "dimension_angle_zero_suppression", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, c |-> <<<<<<<<"e:SuppressZeroFeetAndZeroInches","i:0">>>>>>, <<<<<<"e:IncludeZeroFeetAndZeroInches","i:1">>>>>>, <<<<<<"e:IncludeZeroFeetAndSuppressZeroInches","i:2">>>>>>, <<<<<<"e:IncludeZeroInchesAndSuppressZeroFeet","i:3">>>>>>>>],
  [n |-> "dimension_decimal_separator_char", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"s:.","i:46">>>>>>, c |-> <<<<<<<<"s:A","i:65">>>>>>, <<<<<<"s:,","i:44">>>>>>, <<<<<<"s:~","i:126">>>>>>>>],
  [n |-> "dimension_text_height_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:HorizontalStacking","i:0">>>>>>, c |-> <<<<<<<<"e:HorizontalStacking","i:0">>>>>>, <<<<<<"e:DiagonalStacking","i:1">>>>>>, <<<<<<"e:NotStacked","i:2">>>>>>>>],
  [n |-> "dimension_leader_block_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_lead 90")>>>>, <<<<S("s:a90")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 90 c")>>>>>>],
  [n |-> "dimension_non_angular_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Decimal","i:2">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:Architectural","i:4">>>>>>, <<<<<<"e:Fractional","i:5">>>>>>, <<<<<<"e:WindowsDesktop","i:6">>>>>>>>],
  [n |-> "dimension_line_weight", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:-2")>>>>, c |-> <<<<<<S("i:93")>>>>, <<<<S("i:-1")>>>>, <<<<S("i:-2")>>>>, <<<<S("i:-3")>>>>, <<<<S("i:211")>>>>, <<<<S("i:0")>>>>>>],
  [n |-> "dimension_extension_line_weight", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:-2")>>>>, c |-> <<<<<<S("i:94")>>>>, <<<<S("i:-1")>>>>, <<<<S("i:-2")>>>>, <<<<S("i:-3")>>>>, <<<<S("i:211")>>>>, <<<<S("i:0")>>>>>>],
  [n |-> "dimension_text_movement_rule", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:MoveLineWithText","i:0">>>>>>, c |-> <<<<<<<<"e:MoveLineWithText","i:0">>>>>>, <<<<<<"e:AddLeaderWhenTextIsMoved","i:1">>>>>>, <<<<<<"e:MoveTextFreely","i:2">>>>>>>>],
  [n |-> "dimension_line_fixed_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:951.25")>>>>, <<<<S("f:-952.5")>>>>, <<<<S("f:950003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.9287109375")>>>>>>],
  [n |-> "dimension_line_fixed_length_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "dimension_transverse_segment_angle_in_jogged_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.7853981633974483")>>>>, c |-> <<<<<<S("f:971.25")>>>>, <<<<S("f:-972.5")>>>>, <<<<S("f:970003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:0.9482421875")>>>>>>],
  [n |-> "dimension_text_background_color_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:UseDrawingBackground","i:1">>>>>>, <<<<<<"e:Custom","i:2">>>>>>>>],
  [n |-> "dxf_dimension_text_background_custom_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:100")>>>>, <<<<S("i:256")>>>>, <<<<S("i:150")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_arc_symbol_display_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SymbolBeforeText","i:0">>>>>>, c |-> <<<<<<<<"e:SymbolBeforeText","i:0">>>>>>, <<<<<<"e:SymbolAboveText","i:1">>>>>>, <<<<<<"e:Suppress","i:2">>>>>>>>],
  [n |-> "dimension_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:BYLAYER")>>>>, c |-> <<<<<<S("s:dimension_line 101")>>>>, <<<<S("s:a101")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 101 c")>>>>>>],
  [n |-> "dimension_first_extension_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_firs 102")>>>>, <<<<S("s:a102")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 102 c")>>>>>>],
  [n |-> "dimension_second_extension_line_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:dimension_seco 103")>>>>, <<<<S("s:a103")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 103 c")>>>>>>],
  [n |-> "dimension_text_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:LeftToRight","i:0">>>>>>, c |-> <<<<<<<<"e:LeftToRight","i:0">>>>>>, <<<<<<"e:RightToLeft","i:1">>>>>>>>],
  [n |-> "unit_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Decimal","i:2">>>>>>, c |-> <<<<<<<<"e:Scientific","i:1">>>>>>, <<<<<<"e:Decimal","i:2">>>>>>, <<<<<<"e:Engineering","i:3">>>>>>, <<<<<<"e:ArchitecturalStacked","i:4">>>>>>, <<<<<<"e:FractionalStacked","i:5">>>>>>, <<<<<<"e:Architectural","i:6">>>>>>, <<<<<<"e:Fractional","i:7">>>>>>>>],
  [n |-> "unit_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:4")>>>>, c |-> <<<<<<S("i:1061")>>>>, <<<<S("i:-1062")>>>>, <<<<S("i:32661")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32662")>>>>>>],
  [n |-> "sketch_record_increment", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.1")>>>>, c |-> <<<<<<S("f:1071.25")>>>>, <<<<S("f:-1072.5")>>>>, <<<<S("f:1070003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.0458984375")>>>>>>],
  [n |-> "fillet_radius", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1081.25")>>>>, <<<<S("f:-1082.5")>>>>, <<<<S("f:1080003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.0556640625")>>>>>>],
  [n |-> "angle_unit_format", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DecimalDegrees","i:0">>>>>>, c |-> <<<<<<<<"e:DecimalDegrees","i:0">>>>>>, <<<<<<"e:DegreesMinutesSeconds","i:1">>>>>>, <<<<<<"e:Gradians","i:2">>>>>>, <<<<<<"e:Radians","i:3">>>>>>, <<<<<<"e:SurveyorsUnits","i:4">>>>>>>>],
  [n |-> "angle_unit_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1101")>>>>, <<<<S("i:-1102")>>>>, <<<<S("i:32657")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32658")>>>>>>],
  [n |-> "file_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:.")>>>>, c |-> <<<<<<S("s:file_name 111")>>>>, <<<<S("s:a111")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 111 c")>>>>>>],
  [n |-> "elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1121.25")>>>>, <<<<S("f:-1122.5")>>>>, <<<<S("f:1120003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.0947265625")>>>>>>],
  [n |-> "paperspace_elevation", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1131.25")>>>>, <<<<S("f:-1132.5")>>>>, <<<<S("f:1130003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.1044921875")>>>>>>],
  [n |-> "thickness", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1141.25")>>>>, <<<<S("f:-1142.5")>>>>, <<<<S("f:1140003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.1142578125")>>>>>>],
  [n |-> "use_limits_checking", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "blip_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "first_chamfer_distance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1171.25")>>>>, <<<<S("f:-1172.5")>>>>, <<<<S("f:1170003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.1435546875")>>>>>>],
  [n |-> "second_chamfer_distance", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1181.25")>>>>, <<<<S("f:-1182.5")>>>>, <<<<S("f:1180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.1533203125")>>>>>>],
  [n |-> "chamfer_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1191.25")>>>>, <<<<S("f:-1192.5")>>>>, <<<<S("f:1190003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.1630859375")>>>>>>],
  [n |-> "chamfer_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1201.25")>>>>, <<<<S("f:-1202.5")>>>>, <<<<S("f:1200003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.1728515625")>>>>>>],
  [n |-> "polyline_sketch_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SketchLines","i:0">>>>>>, c |-> <<<<<<<<"e:SketchLines","i:0">>>>>>, <<<<<<"e:SketchPolylines","i:1">>>>>>>>],
  [n |-> "creation_date", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"d:2000-01-01T00:00:00Z","*">>>>>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>>>, <<<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<<<<<"d:1970-01-01T00:00:01Z","*">>>>>>>>],
  [n |-> "creation_date_universal", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"d:2000-01-01T00:00:00Z","*">>>>>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>>>, <<<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<<<<<"d:1970-01-01T00:00:01Z","*">>>>>>>>],
  [n |-> "update_date", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"d:2000-01-01T00:00:00Z","*">>>>>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>>>, <<<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<<<<<"d:1970-01-01T00:00:01Z","*">>>>>>>>],
  [n |-> "update_date_universal", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"d:2000-01-01T00:00:00Z","*">>>>>>, c |-> <<<<<<<<"d:2001-02-03T04:05:06Z","*">>>>>>, <<<<<<"d:1999-12-31T23:59:59Z","*">>>>>>, <<<<<<"d:2024-02-29T12:00:00Z","*">>>>>>, <<<<<<"d:1970-01-01T00:00:01Z","*">>>>>>>>],
  [n |-> "time_in_drawing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"D:0","*">>>>>>, c |-> <<<<<<<<"D:7565","*">>>>>>, <<<<<<"D:86399","*">>>>>>, <<<<<<"D:86400","*">>>>>>, <<<<<<"D:1000126","*">>>>>>>>],
  [n |-> "user_elapsed_timer", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"D:0","*">>>>>>, c |-> <<<<<<<<"D:7625","*">>>>>>, <<<<<<"D:86399","*">>>>>>, <<<<<<"D:86400","*">>>>>>, <<<<<<"D:1000127","*">>>>>>>>],
  [n |-> "user_timer_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "angle_zero_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1291.25")>>>>, <<<<S("f:-1292.5")>>>>, <<<<S("f:1290003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.2607421875")>>>>>>],
  [n |-> "angle_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:CounterClockwise","i:0">>>>>>, c |-> <<<<<<<<"e:CounterClockwise","i:0">>>>>>, <<<<<<"e:Clockwise","i:1">>>>>>>>],
  [n |-> "point_display_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1311")>>>>, <<<<S("i:-1312")>>>>, <<<<S("i:32636")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32637")>>>>>>],
  [n |-> "point_display_size", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1321.25")>>>>, <<<<S("f:-1322.5")>>>>, <<<<S("f:1320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.2900390625")>>>>>>],
  [n |-> "default_polyline_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1331.25")>>>>, <<<<S("f:-1332.5")>>>>, <<<<S("f:1330003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.2998046875")>>>>>>],
  [n |-> "coordinate_display", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:ContinuousUpdate","i:1">>>>>>, c |-> <<<<<<<<"e:Static","i:0">>>>>>, <<<<<<"e:ContinuousUpdate","i:1">>>>>>, <<<<<<"e:DistanceAngleFormat","i:2">>>>>>>>],
  [n |-> "display_spline_polygon_control", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "pedit_spline_curve_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:CubicBSpline","i:6">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:QuadraticBSpline","i:5">>>>>>, <<<<<<"e:CubicBSpline","i:6">>>>>>, <<<<<<"e:Bezier","i:8">>>>>>>>],
  [n |-> "line_segments_per_spline_patch", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:8")>>>>, c |-> <<<<<<S("i:1371")>>>>, <<<<S("i:-1372")>>>>, <<<<S("i:32630")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32631")>>>>>>],
  [n |-> "show_attribute_entry_dialogs", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "prompt_for_attribute_on_insert", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "handles_enabled", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "mesh_tabulations_in_first_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:6")>>>>, c |-> <<<<<<S("i:1411")>>>>, <<<<S("i:-1412")>>>>, <<<<S("i:32626")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32627")>>>>>>],
  [n |-> "mesh_tabulations_in_second_direction", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:6")>>>>, c |-> <<<<<<S("i:1421")>>>>, <<<<S("i:-1422")>>>>, <<<<S("i:32625")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32626")>>>>>>],
  [n |-> "pedit_smooth_surface_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:CubicBSpline","i:6">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:QuadraticBSpline","i:5">>>>>>, <<<<<<"e:CubicBSpline","i:6">>>>>>, <<<<<<"e:Bezier","i:8">>>>>>>>],
  [n |-> "pedit_smooth_m_densith", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:6")>>>>, c |-> <<<<<<S("i:1441")>>>>, <<<<S("i:-1442")>>>>, <<<<S("i:32623")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32624")>>>>>>],
  [n |-> "pedit_smooth_n_densith", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:6")>>>>, c |-> <<<<<<S("i:1451")>>>>, <<<<S("i:-1452")>>>>, <<<<S("i:32622")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32623")>>>>>>],
  [n |-> "ucs_definition_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:ucs_definition 146")>>>>, <<<<S("s:a146")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 146 c")>>>>>>],
  [n |-> "ucs_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:ucs_name 147")>>>>, <<<<S("s:a147")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 147 c")>>>>>>],
  [n |-> "ucs_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:5921.25"),S("f:5931.25"),S("f:5941.25")>>>>, <<<<S("f:-5922.5"),S("f:-5932.5"),S("f:-5942.5")>>>>, <<<<S("f:5920003.125"),S("f:5930003.125"),S("f:5940003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_x_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:5961.25"),S("f:5971.25"),S("f:5981.25")>>>>, <<<<S("f:-5962.5"),S("f:-5972.5"),S("f:-5982.5")>>>>, <<<<S("f:5960003.125"),S("f:5970003.125"),S("f:5980003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_y_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6001.25"),S("f:6011.25"),S("f:6021.25")>>>>, <<<<S("f:-6002.5"),S("f:-6012.5"),S("f:-6022.5")>>>>, <<<<S("f:6000003.125"),S("f:6010003.125"),S("f:6020003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ortho_ucs_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:ortho_ucs_refe 151")>>>>, <<<<S("s:a151")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 151 c")>>>>>>],
  [n |-> "orthgraphic_view_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "ucs_origin_top", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6121.25"),S("f:6131.25"),S("f:6141.25")>>>>, <<<<S("f:-6122.5"),S("f:-6132.5"),S("f:-6142.5")>>>>, <<<<S("f:6120003.125"),S("f:6130003.125"),S("f:6140003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_origin_bottom", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6161.25"),S("f:6171.25"),S("f:6181.25")>>>>, <<<<S("f:-6162.5"),S("f:-6172.5"),S("f:-6182.5")>>>>, <<<<S("f:6160003.125"),S("f:6170003.125"),S("f:6180003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_origin_left", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6201.25"),S("f:6211.25"),S("f:6221.25")>>>>, <<<<S("f:-6202.5"),S("f:-6212.5"),S("f:-6222.5")>>>>, <<<<S("f:6200003.125"),S("f:6210003.125"),S("f:6220003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_origin_right", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6241.25"),S("f:6251.25"),S("f:6261.25")>>>>, <<<<S("f:-6242.5"),S("f:-6252.5"),S("f:-6262.5")>>>>, <<<<S("f:6240003.125"),S("f:6250003.125"),S("f:6260003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_origin_front", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6281.25"),S("f:6291.25"),S("f:6301.25")>>>>, <<<<S("f:-6282.5"),S("f:-6292.5"),S("f:-6302.5")>>>>, <<<<S("f:6280003.125"),S("f:6290003.125"),S("f:6300003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "ucs_origin_back", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6321.25"),S("f:6331.25"),S("f:6341.25")>>>>, <<<<S("f:-6322.5"),S("f:-6332.5"),S("f:-6342.5")>>>>, <<<<S("f:6320003.125"),S("f:6330003.125"),S("f:6340003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ucs_definition_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:paperspace_ucs 159")>>>>, <<<<S("s:a159")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 159 c")>>>>>>],
  [n |-> "paperspace_ucs_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:paperspace_ucs 160")>>>>, <<<<S("s:a160")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 160 c")>>>>>>],
  [n |-> "paperspace_ucs_origin", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6441.25"),S("f:6451.25"),S("f:6461.25")>>>>, <<<<S("f:-6442.5"),S("f:-6452.5"),S("f:-6462.5")>>>>, <<<<S("f:6440003.125"),S("f:6450003.125"),S("f:6460003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_x_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6481.25"),S("f:6491.25"),S("f:6501.25")>>>>, <<<<S("f:-6482.5"),S("f:-6492.5"),S("f:-6502.5")>>>>, <<<<S("f:6480003.125"),S("f:6490003.125"),S("f:6500003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_y_axis", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:1.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6521.25"),S("f:6531.25"),S("f:6541.25")>>>>, <<<<S("f:-6522.5"),S("f:-6532.5"),S("f:-6542.5")>>>>, <<<<S("f:6520003.125"),S("f:6530003.125"),S("f:6540003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ortho_ucs_reference", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:paperspace_ort 164")>>>>, <<<<S("s:a164")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 164 c")>>>>>>],
  [n |-> "paperspace_orthographic_view_type", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>, <<<<<<"e:Front","i:3">>>>>>, <<<<<<"e:Back","i:4">>>>>>, <<<<<<"e:Left","i:5">>>>>>, <<<<<<"e:Right","i:6">>>>>>>>],
  [n |-> "paperspace_ucs_origin_top", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6641.25"),S("f:6651.25"),S("f:6661.25")>>>>, <<<<S("f:-6642.5"),S("f:-6652.5"),S("f:-6662.5")>>>>, <<<<S("f:6640003.125"),S("f:6650003.125"),S("f:6660003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ucs_origin_bottom", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6681.25"),S("f:6691.25"),S("f:6701.25")>>>>, <<<<S("f:-6682.5"),S("f:-6692.5"),S("f:-6702.5")>>>>, <<<<S("f:6680003.125"),S("f:6690003.125"),S("f:6700003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ucs_origin_left", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6721.25"),S("f:6731.25"),S("f:6741.25")>>>>, <<<<S("f:-6722.5"),S("f:-6732.5"),S("f:-6742.5")>>>>, <<<<S("f:6720003.125"),S("f:6730003.125"),S("f:6740003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ucs_origin_right", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6761.25"),S("f:6771.25"),S("f:6781.25")>>>>, <<<<S("f:-6762.5"),S("f:-6772.5"),S("f:-6782.5")>>>>, <<<<S("f:6760003.125"),S("f:6770003.125"),S("f:6780003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ucs_origin_front", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6801.25"),S("f:6811.25"),S("f:6821.25")>>>>, <<<<S("f:-6802.5"),S("f:-6812.5"),S("f:-6822.5")>>>>, <<<<S("f:6800003.125"),S("f:6810003.125"),S("f:6820003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_ucs_origin_back", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:6841.25"),S("f:6851.25"),S("f:6861.25")>>>>, <<<<S("f:-6842.5"),S("f:-6852.5"),S("f:-6862.5")>>>>, <<<<S("f:6840003.125"),S("f:6850003.125"),S("f:6860003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "user_int1", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1721")>>>>, <<<<S("i:-1722")>>>>, <<<<S("i:32595")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32596")>>>>>>],
  [n |-> "user_int2", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1731")>>>>, <<<<S("i:-1732")>>>>, <<<<S("i:32594")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32595")>>>>>>],
  [n |-> "user_int3", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1741")>>>>, <<<<S("i:-1742")>>>>, <<<<S("i:32593")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32594")>>>>>>],
  [n |-> "user_int4", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1751")>>>>, <<<<S("i:-1752")>>>>, <<<<S("i:32592")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32593")>>>>>>],
  [n |-> "user_int5", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:0")>>>>, c |-> <<<<<<S("i:1761")>>>>, <<<<S("i:-1762")>>>>, <<<<S("i:32591")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32592")>>>>>>],
  [n |-> "user_real1", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1771.25")>>>>, <<<<S("f:-1772.5")>>>>, <<<<S("f:1770003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.7294921875")>>>>>>],
  [n |-> "user_real2", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1781.25")>>>>, <<<<S("f:-1782.5")>>>>, <<<<S("f:1780003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.7392578125")>>>>>>],
  [n |-> "user_real3", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1791.25")>>>>, <<<<S("f:-1792.5")>>>>, <<<<S("f:1790003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.7490234375")>>>>>>],
  [n |-> "user_real4", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1801.25")>>>>, <<<<S("f:-1802.5")>>>>, <<<<S("f:1800003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.7587890625")>>>>>>],
  [n |-> "user_real5", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:1811.25")>>>>, <<<<S("f:-1812.5")>>>>, <<<<S("f:1810003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.7685546875")>>>>>>],
  [n |-> "set_ucs_to_wcs_in_d_view_or_v_point", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "edge_shading", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:FacesInEntityColorEdgesInBlack","i:3">>>>>>, c |-> <<<<<<<<"e:FacesShadedEdgeNotHighlighted","i:0">>>>>>, <<<<<<"e:FacesShadedEdgesHighlightedInBlack","i:1">>>>>>, <<<<<<"e:FacesNotFilledEdgesInEntityColor","i:2">>>>>>, <<<<<<"e:FacesInEntityColorEdgesInBlack","i:3">>>>>>>>],
  [n |-> "percent_ambient_to_diffuse", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:70")>>>>, c |-> <<<<<<S("i:1841")>>>>, <<<<S("i:-1842")>>>>, <<<<S("i:32583")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32584")>>>>>>],
  [n |-> "previous_release_tile_compatability", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "maximum_active_viewports", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:64")>>>>, c |-> <<<<<<S("i:1861")>>>>, <<<<S("i:-1862")>>>>, <<<<S("i:32581")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32582")>>>>>>],
  [n |-> "paperspace_insertion_base", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:7481.25"),S("f:7491.25"),S("f:7501.25")>>>>, <<<<S("f:-7482.5"),S("f:-7492.5"),S("f:-7502.5")>>>>, <<<<S("f:7480003.125"),S("f:7490003.125"),S("f:7500003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "limit_checking_in_paperspace", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "paperspace_minimum_drawing_extents", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1e+20"),S("f:1e+20"),S("f:1e+20")>>>>, c |-> <<<<<<S("f:7561.25"),S("f:7571.25"),S("f:7581.25")>>>>, <<<<S("f:-7562.5"),S("f:-7572.5"),S("f:-7582.5")>>>>, <<<<S("f:7560003.125"),S("f:7570003.125"),S("f:7580003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_maximum_drawing_extents", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:-1e+20"),S("f:-1e+20"),S("f:-1e+20")>>>>, c |-> <<<<<<S("f:7601.25"),S("f:7611.25"),S("f:7621.25")>>>>, <<<<S("f:-7602.5"),S("f:-7612.5"),S("f:-7622.5")>>>>, <<<<S("f:7600003.125"),S("f:7610003.125"),S("f:7620003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_minimum_drawing_limits", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:7641.25"),S("f:7651.25")>>>>, <<<<S("f:-7642.5"),S("f:-7652.5")>>>>, <<<<S("f:7640003.125"),S("f:7650003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "paperspace_maximum_drawing_limits", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:12.0"),S("f:9.0")>>>>, c |-> <<<<<<S("f:7681.25"),S("f:7691.25")>>>>, <<<<S("f:-7682.5"),S("f:-7692.5")>>>>, <<<<S("f:7680003.125"),S("f:7690003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "display_fractions_in_input", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "retain_x_ref_dependent_visibility_settings", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_polyline_continuous_around_verticies", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "scale_line_types_in_paperspace", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "spacial_index_max_depth", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:3020")>>>>, c |-> <<<<<<S("i:1971")>>>>, <<<<S("i:-1972")>>>>, <<<<S("i:32570")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32571")>>>>>>],
  [n |-> "pick_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Group","i:1">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Group","i:1">>>>>>, <<<<<<"e:AssociativeHatch","i:2">>>>>>, <<<<<<"e:GroupAndAssociativeHatch","i:3">>>>>>>>],
  [n |-> "current_multiline_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:STANDARD")>>>>, c |-> <<<<<<S("s:current_multil 199")>>>>, <<<<S("s:a199")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 199 c")>>>>>>],
  [n |-> "current_multiline_justification", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Top","i:0">>>>>>, c |-> <<<<<<<<"e:Top","i:0">>>>>>, <<<<<<"e:Middle","i:1">>>>>>, <<<<<<"e:Bottom","i:2">>>>>>>>],
  [n |-> "current_multiline_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:2011.25")>>>>, <<<<S("f:-2012.5")>>>>, <<<<S("f:2010003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:1.9638671875")>>>>>>],
  [n |-> "save_proxy_graphics", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "drawing_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:English","i:0">>>>>>, c |-> <<<<<<<<"e:English","i:0">>>>>>, <<<<<<"e:Metric","i:1">>>>>>>>],
  [n |-> "new_object_line_weight", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:-1")>>>>, c |-> <<<<<<S("i:5")>>>>, <<<<S("i:-1")>>>>, <<<<S("i:-2")>>>>, <<<<S("i:-3")>>>>, <<<<S("i:211")>>>>, <<<<S("i:0")>>>>>>],
  [n |-> "end_cap_setting", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Round","i:1">>>>>>, <<<<<<"e:Angle","i:2">>>>>>, <<<<<<"e:Square","i:3">>>>>>>>],
  [n |-> "lineweight_joint_setting", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:Round","i:1">>>>>>, <<<<<<"e:Angle","i:2">>>>>>, <<<<<<"e:Flat","i:3">>>>>>>>],
  [n |-> "display_linewieght_in_model_and_layout_tab", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "default_drawing_units", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Unitless","i:0">>>>>>, c |-> <<<<<<<<"e:Unitless","i:0">>>>>>, <<<<<<"e:Inches","i:1">>>>>>, <<<<<<"e:Feet","i:2">>>>>>, <<<<<<"e:Miles","i:3">>>>>>, <<<<<<"e:Millimeters","i:4">>>>>>, <<<<<<"e:Centimeters","i:5">>>>>>, <<<<<<"e:Meters","i:6">>>>>>, <<<<<<"e:Kilometers","i:7">>>>>>, <<<<<<"e:Microinches","i:8">>>>>>, <<<<<<"e:Mils","i:9">>>>>>, <<<<<<"e:Yards","i:10">>>>>>, <<<<<<"e:Angstroms","i:11">>>>>>, <<<<<<"e:Nanometers","i:12">>>>>>, <<<<<<"e:Microns","i:13">>>>>>, <<<<<<"e:Decimeters","i:14">>>>>>, <<<<<<"e:Decameters","i:15">>>>>>, <<<<<<"e:Hectometers","i:16">>>>>>, <<<<<<"e:Gigameters","i:17">>>>>>, <<<<<<"e:AstronomicalUnits","i:18">>>>>>, <<<<<<"e:LightYears","i:19">>>>>>, <<<<<<"e:Parsecs","i:20">>>>>>, <<<<<<"e:USSurveyFeet","i:21">>>>>>, <<<<<<"e:USSurveyInch","i:22">>>>>>, <<<<<<"e:USSurveyYard","i:23">>>>>>, <<<<<<"e:USSurveyMile","i:24">>>>>>>>],
  [n |-> "hyperlink_base", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:hyperlink_base 209")>>>>, <<<<S("s:a209")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 209 c")>>>>>>],
  [n |-> "stylesheet", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:stylesheet 210")>>>>, <<<<S("s:a210")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 210 c")>>>>>>],
  [n |-> "can_use_in_place_reference_editing", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "new_object_plot_style_handle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:AD4","s:AD4">>>>>>, <<<<<<"h:FFFF2B","s:FFFF2B">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "new_object_plot_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:ByLayer","i:0">>>>>>, c |-> <<<<<<<<"e:ByLayer","i:0">>>>>>, <<<<<<"e:ByBlock","i:1">>>>>>, <<<<<<"e:ByDictionaryDefault","i:2">>>>>>, <<<<<<"e:ByObjectId","i:3">>>>>>>>],
  [n |-> "uses_color_dependent_plot_style_tables", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "fingerprint_guid", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:11111111-2222-3333-4444-555555555555")>>>>, c |-> <<<<<<S("s:00010203-0405-0607-0809-0a0b0c0d0ed7")>>>>, <<<<S("s:ffeeddcc-bbaa-9988-7766-5544332211d7")>>>>>>],
  [n |-> "version_guid", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:11111111-2222-3333-4444-555555555555")>>>>, c |-> <<<<<<S("s:00010203-0405-0607-0809-0a0b0c0d0ed8")>>>>, <<<<S("s:ffeeddcc-bbaa-9988-7766-5544332211d8")>>>>>>],
  [n |-> "use_acad2000_symbol_table_naming", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "viewport_view_scale_factor", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2181.25")>>>>, <<<<S("f:-2182.5")>>>>, <<<<S("f:2180003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.1298828125")>>>>>>],
  [n |-> "ole_startup", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "object_sorting_methods_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:127")>>>>, c |-> <<<<<<S("i:2201")>>>>, <<<<S("i:-2202")>>>>, <<<<S("i:32547")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32548")>>>>>>],
  [n |-> "layer_and_spatial_index_save_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:LayerIndex","i:1">>>>>>, <<<<<<"e:SpatialIndex","i:2">>>>>>, <<<<<<"e:LayerAndSpatialIndex","i:3">>>>>>>>],
  [n |-> "hide_text_objects_when_producint_hidden_view", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "is_x_ref_clipping_boundary_visible", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DisplayedNotPlotted","i:2">>>>>>, c |-> <<<<<<<<"e:NotDisplayedNotPlotted","i:0">>>>>>, <<<<<<"e:DisplayedAndPlotted","i:1">>>>>>, <<<<<<"e:DisplayedNotPlotted","i:2">>>>>>>>],
  [n |-> "halo_gap_percent", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"f:0.0","i:0">>>>>>, c |-> <<<<<<<<"f:2241.0","i:2241">>>>>>, <<<<<<"f:2242.0","i:2242">>>>>>, <<<<<<"f:0.0","i:0">>>>>>>>],
  [n |-> "obscured_line_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:257")>>>>, c |-> <<<<<<S("i:226")>>>>, <<<<S("i:256")>>>>, <<<<S("i:21")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "obscured_line_type_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Off","i:0">>>>>>, c |-> <<<<<<<<"e:Off","i:0">>>>>>, <<<<<<"e:Solid","i:1">>>>>>, <<<<<<"e:Dashed","i:2">>>>>>, <<<<<<"e:Dotted","i:3">>>>>>, <<<<<<"e:ShortDash","i:4">>>>>>, <<<<<<"e:MediumDash","i:5">>>>>>, <<<<<<"e:LongDash","i:6">>>>>>, <<<<<<"e:DoubleShortDash","i:7">>>>>>, <<<<<<"e:DoubleMediumDash","i:8">>>>>>, <<<<<<"e:DoubleLongDash","i:9">>>>>>, <<<<<<"e:MediumLongDash","i:10">>>>>>, <<<<<<"e:SparseDot","i:11">>>>>>>>],
  [n |-> "display_intersection_polylines", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "intersection_polyline_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:257")>>>>, c |-> <<<<<<S("i:229")>>>>, <<<<S("i:256")>>>>, <<<<S("i:24")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "dimension_object_associativity", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:NonAssociativeObjects","i:1">>>>>>, c |-> <<<<<<<<"e:NoAssociationExploded","i:0">>>>>>, <<<<<<"e:NonAssociativeObjects","i:1">>>>>>, <<<<<<"e:AssociativeObjects","i:2">>>>>>>>],
  [n |-> "project_name", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("s:")>>>>, c |-> <<<<<<S("s:project_name 230")>>>>, <<<<S("s:a230")>>>>, <<<<S("s:")>>>>, <<<<S("s:B 230 c")>>>>>>],
  [n |-> "use_camera_display", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "lens_length", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:50.0")>>>>, c |-> <<<<<<S("f:2321.25")>>>>, <<<<S("f:-2322.5")>>>>, <<<<S("f:2320003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.2666015625")>>>>>>],
  [n |-> "camera_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2331.25")>>>>, <<<<S("f:-2332.5")>>>>, <<<<S("f:2330003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.2763671875")>>>>>>],
  [n |-> "steps_per_second_in_walk_or_fly_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:2.0")>>>>, c |-> <<<<<<S("f:2341.25")>>>>, <<<<S("f:-2342.5")>>>>, <<<<S("f:2340003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.2861328125")>>>>>>],
  [n |-> "step_size_in_walk_or_fly_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:6.0")>>>>, c |-> <<<<<<S("f:2351.25")>>>>, <<<<S("f:-2352.5")>>>>, <<<<S("f:2350003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.2958984375")>>>>>>],
  [n |-> "dwf_3d_precision", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Deviation_0_5","f:2.0">>>>>>, c |-> <<<<<<<<"e:Deviation_1","f:1.0">>>>>>, <<<<<<"e:Deviation_0_5","f:2.0">>>>>>, <<<<<<"e:Deviation_0_2","f:3.0">>>>>>, <<<<<<"e:Deviation_0_1","f:4.0">>>>>>, <<<<<<"e:Deviation_0_01","f:5.0">>>>>>, <<<<<<"e:Deviation_0_001","f:6.0">>>>>>>>],
  [n |-> "last_poly_solid_width", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.25")>>>>, c |-> <<<<<<S("f:2371.25")>>>>, <<<<S("f:-2372.5")>>>>, <<<<S("f:2370003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3154296875")>>>>>>],
  [n |-> "last_poly_solid_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:4.0")>>>>, c |-> <<<<<<S("f:2381.25")>>>>, <<<<S("f:-2382.5")>>>>, <<<<S("f:2380003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3251953125")>>>>>>],
  [n |-> "loft_operation_first_draft_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.5707963267948966")>>>>, c |-> <<<<<<S("f:2391.25")>>>>, <<<<S("f:-2392.5")>>>>, <<<<S("f:2390003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3349609375")>>>>>>],
  [n |-> "loft_operation_second_draft_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.5707963267948966")>>>>, c |-> <<<<<<S("f:2401.25")>>>>, <<<<S("f:-2402.5")>>>>, <<<<S("f:2400003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3447265625")>>>>>>],
  [n |-> "loft_operation_first_magnitude", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2411.25")>>>>, <<<<S("f:-2412.5")>>>>, <<<<S("f:2410003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3544921875")>>>>>>],
  [n |-> "loft_operation_second_magnitude", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2421.25")>>>>, <<<<S("f:-2422.5")>>>>, <<<<S("f:2420003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3642578125")>>>>>>],
  [n |-> "loft_flags", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:7")>>>>, c |-> <<<<<<S("i:2431")>>>>, <<<<S("i:-2432")>>>>, <<<<S("i:32524")>>>>, <<<<S("i:0")>>>>, <<<<S("i:-32525")>>>>>>],
  [n |-> "lofted_object_normal_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:SmoothFit","i:1">>>>>>, c |-> <<<<<<<<"e:Ruled","i:0">>>>>>, <<<<<<"e:SmoothFit","i:1">>>>>>, <<<<<<"e:StartCrossSection","i:2">>>>>>, <<<<<<"e:EndCrossSection","i:3">>>>>>, <<<<<<"e:StartAndEndCrossSections","i:4">>>>>>, <<<<<<"e:AllCrossSections","i:5">>>>>>, <<<<<<"e:UseDraftAngleAndMagnitude","i:6">>>>>>>>],
  [n |-> "latitude", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:37.795")>>>>, c |-> <<<<<<S("f:2451.25")>>>>, <<<<S("f:-2452.5")>>>>, <<<<S("f:2450003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.3935546875")>>>>>>],
  [n |-> "longitude", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:-122.394")>>>>, c |-> <<<<<<S("f:2461.25")>>>>, <<<<S("f:-2462.5")>>>>, <<<<S("f:2460003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.4033203125")>>>>>>],
  [n |-> "angle_between_y_axis_and_north", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2471.25")>>>>, <<<<S("f:-2472.5")>>>>, <<<<S("f:2470003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.4130859375")>>>>>>],
  [n |-> "time_zone", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:PacificTime_US_Canada_SanFrancisco_Vancouver","i:-8000">>>>>>, c |-> <<<<<<<<"e:InternationalDateLineWest","i:-12000">>>>>>, <<<<<<"e:MidwayIsland_Samoa","i:-11000">>>>>>, <<<<<<"e:Hawaii","i:-10000">>>>>>, <<<<<<"e:Alaska","i:-9000">>>>>>, <<<<<<"e:PacificTime_US_Canada_SanFrancisco_Vancouver","i:-8000">>>>>>, <<<<<<"e:Arizona","i:-7000">>>>>>, <<<<<<"e:Mazatlan","i:-7002">>>>>>, <<<<<<"e:CentralAmerica","i:-6000">>>>>>, <<<<<<"e:CentralTime_US_Canada","i:-6001">>>>>>, <<<<<<"e:Guadalajara_MexicoCity_Monterrey","i:-6002">>>>>>, <<<<<<"e:Saskatchewan","i:-6003">>>>>>, <<<<<<"e:EasternTime_US_Canada_","i:-5000">>>>>>, <<<<<<"e:Indiana_East_","i:-5001">>>>>>, <<<<<<"e:Bogota_Lima_Quito","i:-5002">>>>>>, <<<<<<"e:AtlanticTime_Canada_","i:-4000">>>>>>, <<<<<<"e:Caracas_LaPaz","i:-4001">>>>>>, <<<<<<"e:Santiago","i:-4002">>>>>>, <<<<<<"e:Newfoundland","i:-3300">>>>>>, <<<<<<"e:Brasilia","i:-3000">>>>>>, <<<<<<"e:BuenosAires_Georgetown","i:-3001">>>>>>, <<<<<<"e:Greenland","i:-3002">>>>>>, <<<<<<"e:MidAtlantic","i:-2000">>>>>>, <<<<<<"e:Azores","i:-1000">>>>>>, <<<<<<"e:CapeVerdeIs","i:-1001">>>>>>, <<<<<<"e:UniversalCoordinatedTime","i:0">>>>>>, <<<<<<"e:GreenwichMeanTime","i:1">>>>>>, <<<<<<"e:Casablanca_Monrovia","i:2">>>>>>, <<<<<<"e:Amsterdam_Berlin_Bern_Rome_Stockholm","i:1000">>>>>>, <<<<<<"e:Brussels_Madrid_Copenhagen_Paris","i:1001">>>>>>, <<<<<<"e:Belgrade_Bratislava_Budapest_Ljubljana_Prague","i:1002">>>>>>, <<<<<<"e:Sarajevo_Skopje_Warsaw_Zagreb","i:1003">>>>>>, <<<<<<"e:WestCentralAfrica","i:1004">>>>>>, <<<<<<"e:Athens_Beirut_Istanbul_Minsk","i:2000">>>>>>, <<<<<<"e:Bucharest","i:2001">>>>>>, <<<<<<"e:Cairo","i:2002">>>>>>, <<<<<<"e:Harare_Pretoria","i:2003">>>>>>, <<<<<<"e:Helsinki_Kyiv_Sofia_Talinn_Vilnius","i:2004">>>>>>, <<<<<<"e:Jerusalem","i:2005">>>>>>, <<<<<<"e:Moscow_StPetersburg_Volograd","i:3000">>>>>>, <<<<<<"e:Kuwait_Riyadh","i:3001">>>>>>, <<<<<<"e:Baghdad","i:3002">>>>>>, <<<<<<"e:Nairobi","i:3003">>>>>>, <<<<<<"e:Tehran","i:3300">>>>>>, <<<<<<"e:AbuDhabi_Muscat","i:4000">>>>>>, <<<<<<"e:Baku_Tbilisi_Yerevan","i:4001">>>>>>, <<<<<<"e:Kabul","i:4300">>>>>>, <<<<<<"e:Ekaterinburg","i:5000">>>>>>, <<<<<<"e:Islamabad_Karachi_Tashkent","i:5001">>>>>>, <<<<<<"e:Chennai_Kolkata_Mumbai_NewDelhi","i:5300">>>>>>, <<<<<<"e:Kathmandu","i:5450">>>>>>, <<<<<<"e:Almaty_Novosibirsk","i:6000">>>>>>, <<<<<<"e:Astana_Dhaka","i:6001">>>>>>, <<<<<<"e:SriJayawardenepura","i:6002">>>>>>, <<<<<<"e:Rangoon","i:6300">>>>>>, <<<<<<"e:Bangkok_Hanoi_Jakarta","i:7000">>>>>>, <<<<<<"e:Krasnoyarsk","i:7001">>>>>>, <<<<<<"e:Beijing_Chongqing_HongKong_Urumqi","i:8000">>>>>>, <<<<<<"e:KualaLumpur_Singapore","i:8001">>>>>>, <<<<<<"e:Taipei","i:8002">>>>>>, <<<<<<"e:Irkutsk_UlaanBataar","i:8003">>>>>>, <<<<<<"e:Perth","i:8004">>>>>>, <<<<<<"e:Osaka_Sapporo_Tokyo","i:9000">>>>>>, <<<<<<"e:Seoul","i:9001">>>>>>, <<<<<<"e:Yakutsk","i:9002">>>>>>, <<<<<<"e:Adelaide","i:9300">>>>>>, <<<<<<"e:Darwin","i:9301">>>>>>, <<<<<<"e:Canberra_Melbourne_Sydney","i:10000">>>>>>, <<<<<<"e:Guam_PortMoresby","i:10001">>>>>>, <<<<<<"e:Brisbane","i:10002">>>>>>, <<<<<<"e:Hobart","i:10003">>>>>>, <<<<<<"e:Vladivostok","i:10004">>>>>>, <<<<<<"e:Magadan_SolomonIs_NewCaledonia","i:11000">>>>>>, <<<<<<"e:Auckland_Wellington","i:12000">>>>>>, <<<<<<"e:Fiji_Kamchatka_MarshallIs","i:12001">>>>>>, <<<<<<"e:Nukualofa_Tonga","i:13000">>>>>>>>],
  [n |-> "use_light_glyph_display", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "use_tile_mode_light_sync", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "current_material_handle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:AFB","s:AFB">>>>>>, <<<<<<"h:FFFF04","s:FFFF04">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "new_solids_contain_history", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "solid_history_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DoesNotOverride","i:1">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:DoesNotOverride","i:1">>>>>>, <<<<<<"e:Override","i:2">>>>>>>>],
  [n |-> "dwf_underlay_frame_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:DisplayNoPlot","i:2">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:DisplayAndPlot","i:1">>>>>>, <<<<<<"e:DisplayNoPlot","i:2">>>>>>>>],
  [n |-> "dgn_underlay_frame_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:None","i:0">>>>>>, c |-> <<<<<<<<"e:None","i:0">>>>>>, <<<<<<"e:DisplayAndPlot","i:1">>>>>>, <<<<<<"e:DisplayNoPlot","i:2">>>>>>>>],
  [n |-> "use_real_world_scale", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "interference_object_color", ks |-> <<"raw_value">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("i:1")>>>>, c |-> <<<<<<S("i:3")>>>>, <<<<S("i:256")>>>>, <<<<S("i:53")>>>>, <<<<S("i:0")>>>>, <<<<S("i:257")>>>>, <<<<S("i:255")>>>>>>],
  [n |-> "interference_object_visual_style_pointer", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:B02","s:B02">>>>>>, <<<<<<"h:FFFEFD","s:FFFEFD">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "interference_view_port_visual_style_pointer", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"h:0","s:0">>>>>>, c |-> <<<<<<<<"h:B03","s:B03">>>>>>, <<<<<<"h:FFFEFC","s:FFFEFC">>>>>>, <<<<<<"h:0","s:0">>>>>>>>],
  [n |-> "shadow_mode", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:CastsAndReceivesShadows","i:0">>>>>>, c |-> <<<<<<<<"e:CastsAndReceivesShadows","i:0">>>>>>, <<<<<<"e:CastsShadows","i:1">>>>>>, <<<<<<"e:ReceivesShadows","i:2">>>>>>, <<<<<<"e:IgnoresShadows","i:3">>>>>>>>],
  [n |-> "shadow_plane_z_offset", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2611.25")>>>>, <<<<S("f:-2612.5")>>>>, <<<<S("f:2610003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.5498046875")>>>>>>],
  [n |-> "axis_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "axis_tick_spacing", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:10521.25"),S("f:10531.25")>>>>, <<<<S("f:-10522.5"),S("f:-10532.5")>>>>, <<<<S("f:10520003.125"),S("f:10530003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "fast_zoom", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:true","i:1">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "grid_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "grid_spacing", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:10641.25"),S("f:10651.25")>>>>, <<<<S("f:-10642.5"),S("f:-10652.5")>>>>, <<<<S("f:10640003.125"),S("f:10650003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "snap_rotation_angle", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0")>>>>, c |-> <<<<<<S("f:2671.25")>>>>, <<<<S("f:-2672.5")>>>>, <<<<S("f:2670003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.6083984375")>>>>>>],
  [n |-> "snap_base_point", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:10721.25"),S("f:10731.25")>>>>, <<<<S("f:-10722.5"),S("f:-10732.5")>>>>, <<<<S("f:10720003.125"),S("f:10730003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "snap_isometric_plane", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Left","i:0">>>>>>, c |-> <<<<<<<<"e:Left","i:0">>>>>>, <<<<<<"e:Top","i:1">>>>>>, <<<<<<"e:Right","i:2">>>>>>>>],
  [n |-> "snap_on", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"b:false","i:0">>>>>>, c |-> <<<<<<<<"b:true","i:1">>>>>>, <<<<<<"b:false","i:0">>>>>>>>],
  [n |-> "snap_style", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<<<"e:Standard","i:0">>>>>>, c |-> <<<<<<<<"e:Standard","i:0">>>>>>, <<<<<<"e:Isometric","i:1">>>>>>>>],
  [n |-> "snap_spacing", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:10881.25"),S("f:10891.25")>>>>, <<<<S("f:-10882.5"),S("f:-10892.5")>>>>, <<<<S("f:10880003.125"),S("f:10890003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_center", ks |-> <<"x","y">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0")>>>>, c |-> <<<<<<S("f:10921.25"),S("f:10931.25")>>>>, <<<<S("f:-10922.5"),S("f:-10932.5")>>>>, <<<<S("f:10920003.125"),S("f:10930003.125")>>>>, <<<<S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_direction", ks |-> <<"x","y","z">>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:0.0"),S("f:0.0"),S("f:1.0")>>>>, c |-> <<<<<<S("f:10961.25"),S("f:10971.25"),S("f:10981.25")>>>>, <<<<S("f:-10962.5"),S("f:-10972.5"),S("f:-10982.5")>>>>, <<<<S("f:10960003.125"),S("f:10970003.125"),S("f:10980003.125")>>>>, <<<<S("f:0.0"),S("f:0.0"),S("f:0.0")>>>>>>],
  [n |-> "view_height", ks |-> <<>>, multi |-> FALSE, priv |-> FALSE, d |-> <<<<S("f:1.0")>>>>, c |-> <<<<<<S("f:2751.25")>>>>, <<<<S("f:-2752.5")>>>>, <<<<S("f:2750003.125")>>>>, <<<<S("f:0.0")>>>>, <<<<S("f:2.6865234375")>>>>>>]>>,
 wr |-> <<
  V("$ACADMAINTVER", 1, <<70>>, 15, 21, FALSE),
  V("$DWGCODEPAGE", 2, <<3>>, 14, 21, FALSE),
  V("$LASTSAVEDBY", 3, <<1>>, 17, 21, FALSE),
  V("$REQUIREDVERSIONS", 4, <<160>>, 20, 21, FALSE),
  V("$INSBASE", 5, <<10,20,30>>, 1, 21, FALSE),
  V("$EXTMIN", 6, <<10,20,30>>, 1, 21, FALSE),
  V("$EXTMAX", 7, <<10,20,30>>, 1, 21, FALSE),
  V("$LIMMIN", 8, <<10,20>>, 1, 21, FALSE),
  V("$LIMMAX", 9, <<10,20>>, 1, 21, FALSE),
  V("$ORTHOMODE", 10, <<70>>, 1, 21, FALSE),
  V("$REGENMODE", 11, <<70>>, 1, 21, FALSE),
  V("$FILLMODE", 12, <<70>>, 1, 21, FALSE),
  V("$QTEXTMODE", 13, <<70>>, 1, 21, FALSE),
  V("$MIRRTEXT", 14, <<70>>, 1, 21, FALSE),
  V("$DRAGMODE", 15, <<70>>, 1, 15, FALSE),
  V("$LTSCALE", 16, <<40>>, 1, 21, FALSE),
  V("$OSMODE", 17, <<70>>, 1, 15, FALSE),
  V("$ATTMODE", 18, <<70>>, 1, 21, FALSE),
  V("$TEXTSIZE", 19, <<40>>, 1, 21, FALSE),
  V("$TRACEWID", 20, <<40>>, 1, 21, FALSE),
  V("$TEXTSTYLE", 21, <<7>>, 1, 21, FALSE),
  V("$CLAYER", 22, <<8>>, 1, 21, FALSE),
  V("$CELTYPE", 23, <<6>>, 1, 21, FALSE),
  V("$CECOLOR", 24, <<62>>, 1, 21, FALSE),
  V("$CELTSCALE", 25, <<40>>, 14, 21, FALSE),
  V("$DELOBJ", 26, <<70>>, 14, 15, FALSE),
  V("$DISPSILH", 27, <<70>>, 14, 21, FALSE),
  V("$DRAGVS", 28, <<349>>, 18, 21, TRUE),
  V("$DIMSCALE", 29, <<40>>, 1, 21, FALSE),
  V("$DIMASZ", 30, <<40>>, 1, 21, FALSE),
  V("$DIMEXO", 31, <<40>>, 1, 21, FALSE),
  V("$DIMDLI", 32, <<40>>, 1, 21, FALSE),
  V("$DIMRND", 33, <<40>>, 1, 21, FALSE),
  V("$DIMDLE", 34, <<40>>, 1, 21, FALSE),
  V("$DIMEXE", 35, <<40>>, 1, 21, FALSE),
  V("$DIMTP", 36, <<40>>, 1, 21, FALSE),
  V("$DIMTM", 37, <<40>>, 1, 21, FALSE),
  V("$DIMTXT", 38, <<40>>, 1, 21, FALSE),
  V("$DIMCEN", 39, <<40>>, 1, 21, FALSE),
  V("$DIMTSZ", 40, <<40>>, 1, 21, FALSE),
  V("$DIMTOL", 41, <<70>>, 1, 21, FALSE),
  V("$DIMLIM", 42, <<70>>, 1, 21, FALSE),
  V("$DIMTIH", 43, <<70>>, 1, 21, FALSE),
  V("$DIMTOH", 44, <<70>>, 1, 21, FALSE),
  V("$DIMSE1", 45, <<70>>, 13, 21, FALSE),
  V("$DIMSE2", 46, <<70>>, 13, 21, FALSE),
  V("$DIMTAD", 47, <<70>>, 1, 21, FALSE),
  V("$DIMZIN", 48, <<70>>, 1, 21, FALSE),
  V("$DIMBLK", 49, <<1>>, 1, 21, FALSE),
  V("$DIMASO", 50, <<70>>, 1, 21, FALSE),
  V("$DIMSHO", 51, <<70>>, 1, 21, FALSE),
  V("$DIMPOST", 52, <<1>>, 1, 21, FALSE),
  V("$DIMAPOST", 53, <<1>>, 1, 21, FALSE),
  V("$DIMALT", 54, <<70>>, 1, 21, FALSE),
  V("$DIMALTD", 55, <<70>>, 1, 21, FALSE),
  V("$DIMALTF", 56, <<40>>, 1, 21, FALSE),
  V("$DIMLFAC", 57, <<40>>, 1, 21, FALSE),
  V("$DIMTOFL", 58, <<70>>, 1, 21, FALSE),
  V("$DIMTVP", 59, <<40>>, 1, 21, FALSE),
  V("$DIMTIX", 60, <<70>>, 1, 21, FALSE),
  V("$DIMSOXD", 61, <<70>>, 1, 21, FALSE),
  V("$DIMSAH", 62, <<70>>, 1, 21, FALSE),
  V("$DIMBLK1", 63, <<1>>, 1, 21, FALSE),
  V("$DIMBLK2", 64, <<1>>, 1, 21, FALSE),
  V("$DIMSTYLE", 65, <<2>>, 1, 21, FALSE),
  V("$DIMCLRD", 66, <<70>>, 12, 21, FALSE),
  V("$DIMCLRE", 67, <<70>>, 12, 21, FALSE),
  V("$DIMCLRT", 68, <<70>>, 12, 21, FALSE),
  V("$DIMTFAC", 69, <<40>>, 13, 21, FALSE),
  V("$DIMGAP", 70, <<40>>, 12, 21, FALSE),
  V("$DIMJUST", 71, <<70>>, 14, 21, FALSE),
  V("$DIMSD1", 45, <<70>>, 14, 21, FALSE),
  V("$DIMSD2", 46, <<70>>, 14, 21, FALSE),
  V("$DIMTOLJ", 72, <<70>>, 14, 21, FALSE),
  V("$DIMTZIN", 73, <<70>>, 14, 21, FALSE),
  V("$DIMALTZ", 74, <<70>>, 14, 21, FALSE),
  V("$DIMALTTZ", 75, <<70>>, 14, 21, FALSE),
  V("$DIMFIT", 76, <<70>>, 14, 15, FALSE),
  V("$DIMUPT", 77, <<70>>, 14, 21, FALSE),
  V("$DIMUNIT", 78, <<70>>, 14, 15, FALSE),
  V("$DIMDEC", 79, <<70>>, 14, 21, FALSE),
  V("$DIMTDEC", 80, <<70>>, 14, 21, FALSE),
  V("$DIMALTU", 81, <<70>>, 14, 21, FALSE),
  V("$DIMALTTD", 82, <<70>>, 14, 21, FALSE),
  V("$DIMTXSTY", 83, <<7>>, 14, 21, FALSE),
  V("$DIMAUNIT", 84, <<70>>, 14, 21, FALSE),
  V("$DIMADEC", 85, <<70>>, 16, 21, FALSE),
  V("$DIMALTRND", 86, <<40>>, 16, 21, FALSE),
  V("$DIMAZIN", 87, <<70>>, 16, 21, FALSE),
  V("$DIMDSEP", 88, <<70>>, 16, 21, FALSE),
  V("$DIMATFIT", 76, <<70>>, 16, 21, FALSE),
  V("$DIMFRAC", 89, <<70>>, 16, 21, FALSE),
  V("$DIMLDRBLK", 90, <<1>>, 16, 21, FALSE),
  V("$DIMLUNIT", 91, <<70>>, 16, 21, FALSE),
  V("$DIMLWD", 92, <<70>>, 16, 21, FALSE),
  V("$DIMLWE", 93, <<70>>, 16, 21, FALSE),
  V("$DIMTMOVE", 94, <<70>>, 16, 21, FALSE),
  V("$DIMFXL", 95, <<40>>, 18, 21, FALSE),
  V("$DIMFXLON", 96, <<70>>, 18, 21, FALSE),
  V("$DIMJOGANG", 97, <<40>>, 18, 21, FALSE),
  V("$DIMTFILL", 98, <<70>>, 18, 21, FALSE),
  V("$DIMTFILLCLR", 99, <<70>>, 18, 21, FALSE),
  V("$DIMARCSYM", 100, <<70>>, 18, 21, FALSE),
  V("$DIMLTYPE", 101, <<6>>, 18, 21, FALSE),
  V("$DIMLTEX1", 102, <<6>>, 18, 21, FALSE),
  V("$DIMLTEX2", 103, <<6>>, 18, 21, FALSE),
  V("$DIMTXTDIRECTION", 104, <<70>>, 19, 21, FALSE),
  V("$LUNITS", 105, <<70>>, 1, 21, FALSE),
  V("$LUPREC", 106, <<70>>, 1, 21, FALSE),
  V("$SKETCHINC", 107, <<40>>, 1, 21, FALSE),
  V("$FILLETRAD", 108, <<40>>, 1, 21, FALSE),
  V("$AUNITS", 109, <<70>>, 1, 21, FALSE),
  V("$AUPREC", 110, <<70>>, 1, 21, FALSE),
  V("$MENU", 111, <<1>>, 1, 21, FALSE),
  V("$ELEVATION", 112, <<40>>, 1, 21, FALSE),
  V("$PELEVATION", 113, <<40>>, 12, 21, FALSE),
  V("$THICKNESS", 114, <<40>>, 1, 21, FALSE),
  V("$LIMCHECK", 115, <<70>>, 1, 21, FALSE),
  V("$BLIPMODE", 116, <<70>>, 1, 15, FALSE),
  V("$CHAMFERA", 117, <<40>>, 1, 21, FALSE),
  V("$CHAMFERB", 118, <<40>>, 1, 21, FALSE),
  V("$CHAMFERC", 119, <<40>>, 15, 21, FALSE),
  V("$CHAMFERD", 120, <<40>>, 15, 21, FALSE),
  V("$SKPOLY", 121, <<70>>, 1, 21, FALSE),
  V("$TDCREATE", 122, <<40>>, 1, 21, FALSE),
  V("$TDUCREATE", 123, <<40>>, 16, 21, FALSE),
  V("$TDUPDATE", 124, <<40>>, 1, 21, FALSE),
  V("$TDUUPDATE", 125, <<40>>, 16, 21, FALSE),
  V("$TDINDWG", 126, <<40>>, 1, 21, FALSE),
  V("$TDUSRTIMER", 127, <<40>>, 1, 21, FALSE),
  V("$USRTIMER", 128, <<70>>, 1, 21, FALSE),
  V("$ANGBASE", 129, <<50>>, 1, 21, FALSE),
  V("$ANGDIR", 130, <<70>>, 1, 21, FALSE),
  V("$PDMODE", 131, <<70>>, 1, 21, FALSE),
  V("$PDSIZE", 132, <<40>>, 1, 21, FALSE),
  V("$PLINEWID", 133, <<40>>, 1, 21, FALSE),
  V("$COORDS", 134, <<70>>, 1, 15, FALSE),
  V("$SPLFRAME", 135, <<70>>, 1, 20, FALSE),
  V("$SPLINETYPE", 136, <<70>>, 1, 21, FALSE),
  V("$SPLINESEGS", 137, <<70>>, 1, 21, FALSE),
  V("$ATTDIA", 138, <<70>>, 1, 15, FALSE),
  V("$ATTREQ", 139, <<70>>, 1, 15, FALSE),
  V("$HANDLING", 140, <<70>>, 1, 13, FALSE),
  V("$SURFTAB1", 141, <<70>>, 1, 21, FALSE),
  V("$SURFTAB2", 142, <<70>>, 1, 21, FALSE),
  V("$SURFTYPE", 143, <<70>>, 1, 21, FALSE),
  V("$SURFU", 144, <<70>>, 1, 21, FALSE),
  V("$SURFV", 145, <<70>>, 1, 21, FALSE),
  V("$UCSBASE", 146, <<2>>, 16, 21, FALSE),
  V("$UCSNAME", 147, <<2>>, 1, 21, FALSE),
  V("$UCSORG", 148, <<10,20,30>>, 1, 21, FALSE),
  V("$UCSXDIR", 149, <<10,20,30>>, 1, 21, FALSE),
  V("$UCSYDIR", 150, <<10,20,30>>, 1, 21, FALSE),
  V("$UCSORTHOREF", 151, <<2>>, 16, 21, FALSE),
  V("$UCSORTHOVIEW", 152, <<70>>, 16, 21, FALSE),
  V("$UCSORGTOP", 153, <<10,20,30>>, 16, 21, FALSE),
  V("$UCSORGBOTTOM", 154, <<10,20,30>>, 16, 21, FALSE),
  V("$UCSORGLEFT", 155, <<10,20,30>>, 16, 21, FALSE),
  V("$UCSORGRIGHT", 156, <<10,20,30>>, 16, 21, FALSE),
  V("$UCSORGFRONT", 157, <<10,20,30>>, 16, 21, FALSE),
  V("$UCSORGBACK", 158, <<10,20,30>>, 16, 21, FALSE),
  V("$PUCSBASE", 159, <<2>>, 16, 21, FALSE),
  V("$PUCSNAME", 160, <<2>>, 12, 21, FALSE),
  V("$PUCSORG", 161, <<10,20,30>>, 12, 21, FALSE),
  V("$PUCSXDIR", 162, <<10,20,30>>, 12, 21, FALSE),
  V("$PUCSYDIR", 163, <<10,20,30>>, 12, 21, FALSE),
  V("$PUCSORTHOREF", 164, <<2>>, 16, 21, FALSE),
  V("$PUCSORTHOVIEW", 165, <<70>>, 16, 21, FALSE),
  V("$PUCSORGTOP", 166, <<10,20,30>>, 16, 21, FALSE),
  V("$PUCSORGBOTTOM", 167, <<10,20,30>>, 16, 21, FALSE),
  V("$PUCSORGLEFT", 168, <<10,20,30>>, 16, 21, FALSE),
  V("$PUCSORGRIGHT", 169, <<10,20,30>>, 16, 21, FALSE),
  V("$PUCSORGFRONT", 170, <<10,20,30>>, 16, 21, FALSE),
  V("$PUCSORGBACK", 171, <<10,20,30>>, 16, 21, FALSE),
  V("$USERI1", 172, <<70>>, 1, 21, FALSE),
  V("$USERI2", 173, <<70>>, 1, 21, FALSE),
  V("$USERI3", 174, <<70>>, 1, 21, FALSE),
  V("$USERI4", 175, <<70>>, 1, 21, FALSE),
  V("$USERI5", 176, <<70>>, 1, 21, FALSE),
  V("$USERR1", 177, <<40>>, 1, 21, FALSE),
  V("$USERR2", 178, <<40>>, 1, 21, FALSE),
  V("$USERR3", 179, <<40>>, 1, 21, FALSE),
  V("$USERR4", 180, <<40>>, 1, 21, FALSE),
  V("$USERR5", 181, <<40>>, 1, 21, FALSE),
  V("$WORLDVIEW", 182, <<70>>, 1, 21, FALSE),
  V("$SHADEDGE", 183, <<70>>, 12, 21, FALSE),
  V("$SHADEDIF", 184, <<70>>, 12, 21, FALSE),
  V("$TILEMODE", 185, <<70>>, 12, 21, FALSE),
  V("$MAXACTVP", 186, <<70>>, 12, 21, FALSE),
  V("$PINSBASE", 187, <<10,20,30>>, 15, 21, FALSE),
  V("$PLIMCHECK", 188, <<70>>, 12, 21, FALSE),
  V("$PEXTMIN", 189, <<10,20,30>>, 12, 21, FALSE),
  V("$PEXTMAX", 190, <<10,20,30>>, 12, 21, FALSE),
  V("$PLIMMIN", 191, <<10,20>>, 12, 21, FALSE),
  V("$PLIMMAX", 192, <<10,20>>, 12, 21, FALSE),
  V("$UNITMODE", 193, <<70>>, 12, 21, FALSE),
  V("$VISRETAIN", 194, <<70>>, 13, 21, FALSE),
  V("$PLINEGEN", 195, <<70>>, 12, 21, FALSE),
  V("$PSLTSCALE", 196, <<70>>, 12, 21, FALSE),
  V("$TREEDEPTH", 197, <<70>>, 15, 21, FALSE),
  V("$PICKSTYLE", 198, <<70>>, 14, 15, FALSE),
  V("$CMLSTYLE", 199, <<7>>, 14, 14, FALSE),
  V("$CMLSTYLE", 199, <<2>>, 15, 21, FALSE),
  V("$CMLJUST", 200, <<70>>, 14, 21, FALSE),
  V("$CMLSCALE", 201, <<40>>, 14, 21, FALSE),
  V("$PROXYGRAPHICS", 202, <<70>>, 15, 21, FALSE),
  V("$MEASUREMENT", 203, <<70>>, 15, 21, FALSE),
  V("$CELWEIGHT", 204, <<370>>, 16, 21, FALSE),
  V("$ENDCAPS", 205, <<280>>, 16, 21, FALSE),
  V("$JOINSTYLE", 206, <<280>>, 16, 21, FALSE),
  V("$LWDISPLAY", 207, <<290>>, 16, 21, FALSE),
  V("$INSUNITS", 208, <<70>>, 16, 21, FALSE),
  V("$HYPERLINKBASE", 209, <<1>>, 16, 21, FALSE),
  V("$STYLESHEET", 210, <<1>>, 16, 21, FALSE),
  V("$XEDIT", 211, <<290>>, 16, 21, FALSE),
  V("$CEPSNID", 212, <<390>>, 16, 21, TRUE),
  V("$CEPSNTYPE", 213, <<380>>, 16, 21, FALSE),
  V("$PSTYLEMODE", 214, <<290>>, 16, 21, FALSE),
  V("$FINGERPRINTGUID", 215, <<2>>, 16, 21, FALSE),
  V("$VERSIONGUID", 216, <<2>>, 16, 21, FALSE),
  V("$EXTNAMES", 217, <<290>>, 16, 21, FALSE),
  V("$PSVPSCALE", 218, <<40>>, 16, 21, FALSE),
  V("$OLESTARTUP", 219, <<290>>, 16, 21, FALSE),
  V("$SORTENTS", 220, <<280>>, 17, 21, FALSE),
  V("$INDEXCTL", 221, <<280>>, 17, 21, FALSE),
  V("$HIDETEXT", 222, <<280>>, 17, 21, FALSE),
  V("$XCLIPFRAME", 223, <<290>>, 17, 18, FALSE),
  V("$XCLIPFRAME", 223, <<280>>, 19, 21, FALSE),
  V("$HALOGAP", 224, <<280>>, 17, 21, FALSE),
  V("$OBSCOLOR", 225, <<70>>, 17, 21, FALSE),
  V("$OBSLTYPE", 226, <<280>>, 17, 21, FALSE),
  V("$INTERSECTIONDISPLAY", 227, <<280>>, 17, 21, FALSE),
  V("$INTERSECTIONCOLOR", 228, <<70>>, 17, 21, FALSE),
  V("$DIMASSOC", 229, <<280>>, 17, 21, FALSE),
  V("$PROJECTNAME", 230, <<1>>, 17, 21, FALSE),
  V("$CAMERADISPLAY", 231, <<290>>, 18, 21, FALSE),
  V("$LENSLENGTH", 232, <<40>>, 18, 21, FALSE),
  V("$CAMERAHEIGHT", 233, <<40>>, 18, 21, FALSE),
  V("$STEPSPERSEC", 234, <<40>>, 18, 21, FALSE),
  V("$STEPSIZE", 235, <<40>>, 18, 21, FALSE),
  V("$3DDWFPREC", 236, <<40>>, 18, 21, FALSE),
  V("$PSOLWIDTH", 237, <<40>>, 18, 21, FALSE),
  V("$PSOLHEIGHT", 238, <<40>>, 18, 21, FALSE),
  V("$LOFTANG1", 239, <<40>>, 18, 21, FALSE),
  V("$LOFTANG2", 240, <<40>>, 18, 21, FALSE),
  V("$LOFTMAG1", 241, <<40>>, 18, 21, FALSE),
  V("$LOFTMAG2", 242, <<40>>, 18, 21, FALSE),
  V("$LOFTPARAM", 243, <<70>>, 18, 21, FALSE),
  V("$LOFTNORMALS", 244, <<280>>, 18, 21, FALSE),
  V("$LATITUDE", 245, <<40>>, 18, 21, FALSE),
  V("$LONGITUDE", 246, <<40>>, 18, 21, FALSE),
  V("$NORTHDIRECTION", 247, <<40>>, 18, 21, FALSE),
  V("$TIMEZONE", 248, <<70>>, 18, 21, FALSE),
  V("$LIGHTGLYPHDISPLAY", 249, <<280>>, 18, 21, FALSE),
  V("$TILEMODELIGHTSYNCH", 250, <<280>>, 18, 21, FALSE),
  V("$CMATERIAL", 251, <<347>>, 18, 21, TRUE),
  V("$SOLIDHIST", 252, <<280>>, 18, 21, FALSE),
  V("$SHOWHIST", 253, <<280>>, 18, 21, FALSE),
  V("$DWFFRAME", 254, <<280>>, 18, 21, FALSE),
  V("$DGNFRAME", 255, <<280>>, 18, 21, FALSE),
  V("$REALWORLDSCALE", 256, <<290>>, 18, 21, FALSE),
  V("$INTERFERECOLOR", 257, <<62>>, 18, 21, FALSE),
  V("$INTERFEREOBJVS", 258, <<345>>, 18, 21, TRUE),
  V("$INTERFEREVPVS", 259, <<346>>, 18, 21, TRUE),
  V("$CSHADOW", 260, <<280>>, 18, 21, FALSE),
  V("$SHADOWPLANELOCATION", 261, <<40>>, 18, 21, FALSE),
  V("$AXISMODE", 262, <<70>>, 1, 11, FALSE),
  V("$AXISUNIT", 263, <<10,20>>, 1, 11, FALSE),
  V("$FASTZOOM", 264, <<70>>, 1, 11, FALSE),
  V("$GRIDMODE", 265, <<70>>, 1, 11, FALSE),
  V("$GRIDUNIT", 266, <<10,20>>, 1, 11, FALSE),
  V("$SNAPANG", 267, <<50>>, 1, 11, FALSE),
  V("$SNAPBASE", 268, <<10,20>>, 1, 11, FALSE),
  V("$SNAPISOPAIR", 269, <<70>>, 1, 11, FALSE),
  V("$SNAPMODE", 270, <<70>>, 1, 11, FALSE),
  V("$SNAPSTYLE", 271, <<70>>, 1, 11, FALSE),
  V("$SNAPUNIT", 272, <<10,20>>, 1, 11, FALSE),
  V("$VIEWCTR", 273, <<10,20>>, 1, 11, FALSE),
  V("$VIEWDIR", 274, <<10,20,30>>, 1, 11, FALSE),
  V("$VIEWSIZE", 275, <<40>>, 1, 11, FALSE)>>,
 rd |-> <<>>]

Kinds == <<HeaderRec>>
================================================================================
