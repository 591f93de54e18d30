------------------------------- MODULE Pointers ------------------------------
(* References between the items of a drawing: an item holds the handle of another one, set through the
   interface or found in a file; asking for the referenced item gives that item as long as the drawing
   has it, and only if it is of the kind the reference is for.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Depth, OutFile

S(n, many, want) == [n |-> n, many |-> many, want |-> want]
\* every reference of the public interface, with the kind of item it is for
Slots == <<
    S("EntityCommon.owner", FALSE, "any"), S("EntityCommon.material", FALSE, "Material"), S("EntityCommon.plot_style", FALSE, "any"),
    S("Solid3D.history_object", FALSE, "any"), S("AttributeDefinition.secondary_attributes", TRUE, "any"), S("Attribute.secondary_attributes", TRUE, "any"),
    S("MLine.style", FALSE, "Style"), S("Section.geometry_settings", FALSE, "any"), S("DgnUnderlay.object", FALSE, "Object"), S("DwfUnderlay.object", FALSE, "Object"),
    S("PdfUnderlay.object", FALSE, "Object"), S("ObjectCommon.owner", FALSE, "any"), S("DimensionAssoc.dimension", FALSE, "Entity"), S("DimensionAssoc.main_object", FALSE, "any"),
    S("DimensionAssoc.main_object_xref", FALSE, "any"), S("DimensionAssoc.intersection_object", FALSE, "any"), S("DimensionAssoc.insertion_object_xref", FALSE, "any"),
    S("Field.child_fields", TRUE, "Field"), S("Field.objects", TRUE, "Object"), S("Group.entities", TRUE, "Entity"), S("IdBuffer.entities", TRUE, "Entity"),
    S("LayerIndex.id_buffers", TRUE, "any"), S("Layout.viewport", FALSE, "ViewPort"), S("Layout.table_record", FALSE, "any"), S("Layout.table_record_base", FALSE, "any"),
    S("LightList.lights", TRUE, "Light"), S("MLeaderStyle.line_leader_type", FALSE, "any"), S("MLeaderStyle.arrowhead", FALSE, "any"), S("MLeaderStyle.m_text_style", FALSE, "any"),
    S("MLeaderStyle.block_content", FALSE, "any"), S("PlotSettings.shade_plot_object", FALSE, "any"), S("RapidRTRenderEnvironment.custom_background", FALSE, "any"),
    S("SectionManager.section_entities", TRUE, "Entity"), S("SectionSettings.source_objects", TRUE, "Object"), S("SectionSettings.destination_object", FALSE, "Object"),
    S("SortentsTable.entities", TRUE, "Entity"), S("SortentsTable.sort_items", TRUE, "any"), S("SunStudy.page_setup_wizard", FALSE, "any"), S("SunStudy.view", FALSE, "View"),
    S("SunStudy.visual_style", FALSE, "any"), S("SunStudy.text_style", FALSE, "any"),
    S("AppId.owner", FALSE, "any"), S("BlockRecord.owner", FALSE, "any"), S("DimStyle.owner", FALSE, "any"), S("LineType.owner", FALSE, "any"), S("Layer.owner", FALSE, "any"),
    S("Style.owner", FALSE, "any"), S("Ucs.owner", FALSE, "any"), S("View.owner", FALSE, "any"), S("ViewPort.owner", FALSE, "any"), S("Block.owner", FALSE, "any") >>
\* the items of the drawing
Targets == <<"AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort", "Block", "Line", "Circle", "Light", "PlaceHolder", "Material", "Field">>
Tgt == 1..Len(Targets)
Nothing == 0       \* the zero handle
Unknown == 99      \* a handle no item has
Class(t) == IF Targets[t] \in {"Line", "Circle", "Light"} THEN "Entity" ELSE IF Targets[t] \in {"PlaceHolder", "Material", "Field"} THEN "Object" ELSE Targets[t]
Fits(s, t) == s.want = "any" \/ s.want = Class(t) \/ s.want = Targets[t]
\* what the setter takes: any item, an entity, an object...; a more special kind is checked when it is set
Takes(s, t) == s.want = "any" \/ Class(t) = (CASE s.want \in {"Material", "Field"} -> "Object" [] s.want = "Light" -> "Entity" [] OTHER -> s.want)
Few == {6, 11, 12, 15}

VARIABLES slot, ptr, present, hist, see
vars == <<slot, ptr, present, hist, see>>
Held(p, q) == SelectSeq(p, LAMBDA t : t \in q /\ Fits(Slots[slot], t))
Log(op, t, ok) == hist' = Append(hist, [op |-> op, t |-> t, ok |-> ok, see |-> Held(ptr', present')]) /\ see' = Held(ptr', present')
Store(t) == ptr' = IF Slots[slot].many THEN Append(ptr, t) ELSE <<t>>

Init == slot \in 1..Len(Slots) /\ ptr = (IF Slots[slot].many THEN <<>> ELSE <<Nothing>>) /\ present = Tgt /\ hist = <<>> /\ see = <<>>
Choice == IF hist = <<>> THEN Tgt ELSE Few
\* through the interface
Set == \E t \in Choice : /\ Takes(Slots[slot], t) /\ t \in present
                         /\ (IF Fits(Slots[slot], t) THEN Store(t) ELSE UNCHANGED ptr)
                         /\ UNCHANGED <<slot, present>> /\ Log("set", t, Fits(Slots[slot], t))
\* as a file may have it
Raw == \E t \in {x \in Choice : ~Fits(Slots[slot], x)} \cup {Nothing, Unknown} : Store(t) /\ UNCHANGED <<slot, present>> /\ Log("raw", t, TRUE)
Drop == \E t \in present : /\ \E k \in 1..Len(ptr) : ptr[k] = t
                           /\ present' = present \ {t} /\ UNCHANGED <<slot, ptr>> /\ Log("drop", t, TRUE)
Reload == /\ hist # <<>> /\ hist[Len(hist)].op # "text" /\ hist[Len(hist)].op # "binary"
          /\ \E f \in {"text", "binary"} : UNCHANGED <<slot, ptr, present>> /\ Log(f, 0, TRUE)
\* after the first two steps only some go on
Next == Len(hist) < Depth /\ (Drop \/ Reload \/ ((IF Len(hist) < 2 THEN TRUE ELSE hist[Len(hist)].op \in {"text", "binary"}) /\ (Set \/ Raw)))
Spec == Init /\ [][Next]_vars

\* what is found was stored, exists and is of the right kind
Sound == \A k \in 1..Len(see) : see[k] \in present /\ Fits(Slots[slot], see[k]) /\ \E j \in 1..Len(ptr) : ptr[j] = see[k]
\* saving and loading changes no answer
Stable == \A k \in 2..Len(hist) : hist[k].op \in {"text", "binary"} => hist[k].see = hist[k - 1].see
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == Len(hist) = Depth => Append1(ToJson([slot |-> Slots[slot].n, many |-> Slots[slot].many, want |-> Slots[slot].want, steps |-> hist]))
=============================================================================
