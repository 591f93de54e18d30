-------------------------------- MODULE Flags --------------------------------
(* Small values with accessors: words whose bits are flags, words made of two fields, colors, line
   weights and handles.  A word is the set of its bits that are set.
   TLC applies sequences of accessor calls to words of every kind, checks that a setter changes
   what it is for and nothing else, and writes down what every accessor must then tell.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
CONSTANTS MaxOps, OutFile

Words == <<
    [k |-> "E.Face3D", f |-> "edge_flags", w |-> 32, fl |-> <<<<"is_first_edge_invisible", 0>>, <<"is_second_edge_invisible", 1>>, <<"is_third_edge_invisible", 2>>, <<"is_fourth_edge_invisible", 3>>>>],
    [k |-> "E.AttributeDefinition", f |-> "text_generation_flags", w |-> 32, fl |-> <<<<"is_text_backwards", 1>>, <<"is_text_upside_down", 2>>>>],
    [k |-> "E.AttributeDefinition", f |-> "flags", w |-> 32, fl |-> <<<<"is_invisible", 0>>, <<"is_constant", 1>>, <<"is_input_verification_required", 2>>, <<"is_attribute_present", 3>>>>],
    [k |-> "E.Attribute", f |-> "flags", w |-> 32, fl |-> <<<<"is_invisible", 0>>, <<"is_constant", 1>>, <<"is_input_verification_required", 2>>, <<"is_attribute_present", 3>>>>],
    [k |-> "E.Attribute", f |-> "text_generation_flags", w |-> 32, fl |-> <<<<"is_text_backwards", 1>>, <<"is_text_upside_down", 2>>>>],
    [k |-> "E.Image", f |-> "display_options_flags", w |-> 32, fl |-> <<<<"show_image", 0>>, <<"show_image_when_not_alligned", 1>>, <<"use_clipping_boundary", 2>>, <<"use_transparency", 3>>>>],
    [k |-> "E.LwPolyline", f |-> "flags", w |-> 32, fl |-> <<<<"is_closed", 0>>, <<"is_pline_gen", 7>>>>],
    [k |-> "E.MLine", f |-> "flags", w |-> 32, fl |-> <<<<"has_at_least_one_vertex", 0>>, <<"is_closed", 1>>, <<"suppress_start_caps", 2>>, <<"suppress_end_caps", 3>>>>],
    [k |-> "E.Polyline", f |-> "flags", w |-> 32, fl |-> <<<<"is_closed", 0>>, <<"curve_fit_vertices_added", 1>>, <<"spline_fit_vertices_added", 2>>, <<"is_3d_polyline", 3>>, <<"is_3d_polygon_mesh", 4>>, <<"is_polygon_mesh_closed_in_n_direction", 5>>, <<"is_polyface_mesh", 6>>, <<"is_line_type_pattern_generated_continuously", 7>>>>],
    [k |-> "E.RText", f |-> "type_flags", w |-> 32, fl |-> <<<<"is_expression", 0>>, <<"is_inline_mtext_sequences_enabled", 1>>>>],
    [k |-> "E.Spline", f |-> "flags", w |-> 32, fl |-> <<<<"is_closed", 0>>, <<"is_periodic", 1>>, <<"is_rational", 2>>, <<"is_planar", 3>>, <<"is_linear", 4>>>>],
    [k |-> "E.Text", f |-> "text_generation_flags", w |-> 32, fl |-> <<<<"is_text_backwards", 1>>, <<"is_text_upside_down", 2>>>>],
    [k |-> "E.DgnUnderlay", f |-> "flags", w |-> 32, fl |-> <<<<"is_clipping_on", 0>>, <<"is_underlay_on", 1>>, <<"is_monochrome", 2>>, <<"adjust_for_background", 3>>, <<"is_clip_inside_mode", 4>>>>],
    [k |-> "E.DwfUnderlay", f |-> "flags", w |-> 32, fl |-> <<<<"is_clipping_on", 0>>, <<"is_underlay_on", 1>>, <<"is_monochrome", 2>>, <<"adjust_for_background", 3>>, <<"is_clip_inside_mode", 4>>>>],
    [k |-> "E.PdfUnderlay", f |-> "flags", w |-> 32, fl |-> <<<<"is_clipping_on", 0>>, <<"is_underlay_on", 1>>, <<"is_monochrome", 2>>, <<"adjust_for_background", 3>>, <<"is_clip_inside_mode", 4>>>>],
    [k |-> "E.Vertex", f |-> "flags", w |-> 32, fl |-> <<<<"is_extra_created_by_curve_fit", 0>>, <<"is_curve_fit_tangent_defined", 1>>, <<"is_spline_vertex_created_by_spline_fitting", 3>>, <<"is_spline_frame_control_point", 4>>, <<"is_3d_polyline_vertex", 5>>, <<"is_3d_polygon_mesh", 6>>, <<"is_polyface_mesh_vertex", 7>>>>],
    [k |-> "E.Wipeout", f |-> "display_options_flags", w |-> 32, fl |-> <<<<"show_image", 0>>, <<"show_image_when_not_alligned", 1>>, <<"use_clipping_boundary", 2>>, <<"use_transparency", 3>>>>],
    [k |-> "O.DimensionAssoc", f |-> "associativity_flags", w |-> 32, fl |-> <<<<"is_first_point_reference", 0>>, <<"is_second_point_reference", 1>>, <<"is_third_point_reference", 2>>, <<"is_fourth_point_reference", 3>>>>],
    [k |-> "O.Layout", f |-> "layout_flags", w |-> 32, fl |-> <<<<"is_ps_lt_scale", 0>>, <<"is_lim_check", 1>>>>],
    [k |-> "O.MLineStyle", f |-> "__flags", w |-> 32, fl |-> <<<<"fill_on", 0>>, <<"display_miters", 1>>, <<"start_square_end_cap", 4>>, <<"start_inner_arcs_cap", 5>>, <<"start_round_cap", 6>>, <<"end_square_cap", 8>>, <<"end_inner_arcs_cap", 9>>, <<"end_round_cap", 10>>>>],
    [k |-> "O.PlotSettings", f |-> "plot_layout_flags", w |-> 32, fl |-> <<<<"plot_viewport_borders", 0>>, <<"show_plot_styles", 1>>, <<"plot_centered", 2>>, <<"plot_hidden", 3>>, <<"use_standard_scale", 4>>, <<"plot_plot_styles", 5>>, <<"scale_line_weights", 6>>, <<"print_line_weights", 7>>, <<"draw_viewports_first", 9>>, <<"model_type", 10>>, <<"update_paper", 11>>, <<"zoom_to_paper_on_update", 12>>, <<"initializing", 13>>, <<"prev_plot_init", 14>>>>],
    [k |-> "H", f |-> "object_snap_flags", w |-> 32, fl |-> <<<<"end_point_snap", 0>>, <<"mid_point_snap", 1>>, <<"center_snap", 2>>, <<"node_snap", 3>>, <<"quadrant_snap", 4>>, <<"intersection_snap", 5>>, <<"insertion_snap", 6>>, <<"perpendicular_snap", 7>>, <<"tangent_snap", 8>>, <<"nearest_snap", 9>>, <<"apparent_intersection_snap", 11>>, <<"extension_snap", 12>>, <<"parallel_snap", 13>>>>],
    [k |-> "H", f |-> "object_sorting_methods_flags", w |-> 32, fl |-> <<<<"sort_objects_for_object_selection", 0>>, <<"sort_objects_for_object_snap", 1>>, <<"sort_objects_for_redraw", 2>>, <<"sort_objects_for_mslide", 3>>, <<"sort_objects_for_regen", 4>>, <<"sort_objects_for_plotting", 5>>, <<"sort_objects_for_post_script_output", 6>>>>],
    [k |-> "H", f |-> "loft_flags", w |-> 32, fl |-> <<<<"no_twist", 0>>, <<"align_direction", 1>>, <<"simplify", 2>>, <<"close", 3>>>>],
    [k |-> "Block", f |-> "flags", w |-> 32, fl |-> <<<<"is_anonymous", 0>>, <<"has_non_consistent_attribute_definitions", 1>>, <<"is_xref", 2>>, <<"is_xref_overlay", 3>>, <<"is_externally_dependent", 4>>, <<"is_referenced_external_reference", 5>>, <<"is_resolved_external_reference", 6>>>>],
    [k |-> "Class", f |-> "proxy_capability_flags", w |-> 32, fl |-> <<<<"is_erase_allowed", 0>>, <<"is_transform_allowed", 1>>, <<"is_color_change_allowed", 2>>, <<"is_layer_change_allowed", 3>>, <<"is_line_type_change_allowed", 4>>, <<"is_line_type_scale_change_allowed", 5>>, <<"is_visibility_change_allowed", 6>>, <<"is_clone_allowed", 7>>, <<"is_lineweight_change_allowed", 8>>, <<"is_plot_style_name_change_allowed", 9>>, <<"is_R13_format_proxy", 15>>>>],
    [k |-> "ViewMode", f |-> "flags", w |-> 32, fl |-> <<<<"is_perspective_view_active", 0>>, <<"is_front_clipping_on", 1>>, <<"is_back_clipping_on", 2>>, <<"is_ucs_follow_mode_on", 3>>, <<"is_front_clipping_at_eye", 4>>>>]
    >>
(* color numbers: layer, entity and block are places to take the color from *)
ColorOps == <<"set_by_layer", "set_by_block", "set_by_entity", "turn_off">>
ColorStart == {0, 1, 2, 7, 127, 128, 254, 255, 256, 257, 258, 32767, -1, -7, -255, -32768}
ColorAfter(op, v) == CASE op = "set_by_layer" -> 256 [] op = "set_by_block" -> 0 [] op = "set_by_entity" -> 257 [] op = "turn_off" -> -1
ColorTells(v) == [is_by_layer |-> v = 256, is_by_entity |-> v = 257, is_by_block |-> v = 0, is_turned_off |-> v < 0, is_index |-> v \in 1..255, index |-> IF v \in 1..255 THEN v ELSE -1]
WeightStart == {-3, -2, -1, 0, 5, 13, 211, 32767, -32768}
WeightTells(v) == [is_by_layer |-> v = -2, is_by_block |-> v = -1, raw_value |-> v]

VARIABLES what,     \* "", "word", "proxy", "color", "weight"
          item,     \* which word
          bits,     \* word: bits set; proxy: <<low, high>>; color, weight: number
          start, ops, last
vars == <<what, item, bits, start, ops, last>>

Starts(w) == LET fs == {w.fl[k][2] : k \in 1..Len(w.fl)} all == 0..(w.w - 1)
             IN {{}, all, fs, all \ fs, {b \in all : (b \div 2) * 2 = b}, {b \in all : (b \div 2) * 2 # b}, {w.w - 1}}
Halves == {0, 1, 2, 21, 33, 255, 256, 4660, 32767, 32768, 65535}

Init == what = "" /\ item = 0 /\ bits = {} /\ start = {} /\ ops = <<>> /\ last = <<>>
Pick == /\ what = ""
        /\ ops' = <<>>
        /\ last' = <<>>
        /\ \/ what' = "word" /\ item' \in 1..Len(Words) /\ bits' \in Starts(Words[item'])
           \/ what' = "proxy" /\ item' = 0 /\ bits' \in {<<a, b>> : a \in Halves, b \in Halves}
           \/ what' = "color" /\ item' = 0 /\ bits' \in ColorStart
           \/ what' = "weight" /\ item' = 0 /\ bits' \in WeightStart
        /\ start' = bits'
Do(op) == ops' = Append(ops, op) /\ last' = bits /\ UNCHANGED <<what, item, start>>
Call == /\ what # ""
        /\ Len(ops) < MaxOps
        /\ \/ what = "word" /\ \E k \in 1..Len(Words[item].fl), v \in BOOLEAN :
                 bits' = (IF v THEN bits \cup {Words[item].fl[k][2]} ELSE bits \ {Words[item].fl[k][2]}) /\ Do(<<Words[item].fl[k][1], v>>)
           \/ what = "proxy" /\ Len(ops) < 2 /\ \E half \in 1..2, v \in Halves : bits' = [bits EXCEPT ![half] = v] /\ Do(<<half, v>>)
           \/ what = "color" /\ \E k \in 1..Len(ColorOps) : bits' = ColorAfter(ColorOps[k], bits) /\ Do(<<ColorOps[k], TRUE>>)
Next == Pick \/ Call
Spec == Init /\ [][Next]_vars

(* ---- the properties, on the model *)
BitOf(w, name) == LET k == CHOOSE k \in 1..Len(w.fl) : w.fl[k][1] = name IN w.fl[k][2]
Get(name) == BitOf(Words[item], name) \in bits
OpName == ops[Len(ops)][1]
Sets == what = "word" /\ ops # <<>> => Get(OpName) = ops[Len(ops)][2]
Only == what = "word" /\ ops # <<>> => bits \ {BitOf(Words[item], OpName)} = last \ {BitOf(Words[item], OpName)}
Halved == what = "proxy" /\ ops # <<>> => bits[OpName] = ops[Len(ops)][2] /\ bits[3 - OpName] = last[3 - OpName]
Distinct == what = "word" => Cardinality({Words[item].fl[k][2] : k \in 1..Len(Words[item].fl)}) = Len(Words[item].fl)
OneOf == what = "color" => Cardinality({f \in {"is_by_layer", "is_by_entity", "is_by_block", "is_turned_off", "is_index"} : ColorTells(bits)[f]}) <= 1

Tells == CASE what = "word" -> [k \in 1..Len(Words[item].fl) |-> Get(Words[item].fl[k][1])]
           [] what = "color" -> ColorTells(bits) [] what = "weight" -> WeightTells(bits) [] OTHER -> bits
List(b) == IF what = "word" THEN SetToSortSeq(b, <) ELSE b
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == what # "" => Append1(ToJson([what |-> what, k |-> IF what = "word" THEN Words[item].k ELSE "", f |-> IF what = "word" THEN Words[item].f ELSE "",
                                     start |-> List(start), ops |-> ops, after |-> List(bits), tells |-> Tells]))
=============================================================================
