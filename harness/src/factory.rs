// Factory of default-constructed items by kind name.
use dxf::entities::*;
use dxf::objects::*;

pub fn entity(kind: &str) -> Option<EntityType> {
    Some(match kind {
        "Face3D" => EntityType::Face3D(Face3D::default()),
        "Solid3D" => EntityType::Solid3D(Solid3D::default()),
        "ProxyEntity" => EntityType::ProxyEntity(ProxyEntity::default()),
        "Arc" => EntityType::Arc(Arc::default()),
        "ArcAlignedText" => EntityType::ArcAlignedText(ArcAlignedText::default()),
        "AttributeDefinition" => EntityType::AttributeDefinition(AttributeDefinition::default()),
        "Attribute" => EntityType::Attribute(Attribute::default()),
        "Body" => EntityType::Body(Body::default()),
        "Circle" => EntityType::Circle(Circle::default()),
        "RotatedDimension" => EntityType::RotatedDimension(RotatedDimension::default()),
        "RadialDimension" => EntityType::RadialDimension(RadialDimension::default()),
        "DiameterDimension" => EntityType::DiameterDimension(DiameterDimension::default()),
        "AngularThreePointDimension" => EntityType::AngularThreePointDimension(AngularThreePointDimension::default()),
        "OrdinateDimension" => EntityType::OrdinateDimension(OrdinateDimension::default()),
        "Ellipse" => EntityType::Ellipse(Ellipse::default()),
        "Helix" => EntityType::Helix(Helix::default()),
        "Image" => EntityType::Image(Image::default()),
        "Insert" => EntityType::Insert(Insert::default()),
        "Leader" => EntityType::Leader(Leader::default()),
        "Light" => EntityType::Light(Light::default()),
        "Line" => EntityType::Line(Line::default()),
        "LwPolyline" => EntityType::LwPolyline(LwPolyline::default()),
        "MLine" => EntityType::MLine(MLine::default()),
        "MText" => EntityType::MText(MText::default()),
        "OleFrame" => EntityType::OleFrame(OleFrame::default()),
        "Ole2Frame" => EntityType::Ole2Frame(Ole2Frame::default()),
        "ModelPoint" => EntityType::ModelPoint(ModelPoint::default()),
        "Polyline" => EntityType::Polyline(Polyline::default()),
        "Ray" => EntityType::Ray(Ray::default()),
        "Region" => EntityType::Region(Region::default()),
        "RText" => EntityType::RText(RText::default()),
        "Section" => EntityType::Section(Section::default()),
        "Seqend" => EntityType::Seqend(Seqend::default()),
        "Shape" => EntityType::Shape(Shape::default()),
        "Solid" => EntityType::Solid(Solid::default()),
        "Spline" => EntityType::Spline(Spline::default()),
        "Text" => EntityType::Text(Text::default()),
        "Tolerance" => EntityType::Tolerance(Tolerance::default()),
        "Trace" => EntityType::Trace(Trace::default()),
        "DgnUnderlay" => EntityType::DgnUnderlay(DgnUnderlay::default()),
        "DwfUnderlay" => EntityType::DwfUnderlay(DwfUnderlay::default()),
        "PdfUnderlay" => EntityType::PdfUnderlay(PdfUnderlay::default()),
        "Vertex" => EntityType::Vertex(Vertex::default()),
        "Wipeout" => EntityType::Wipeout(Wipeout::default()),
        "XLine" => EntityType::XLine(XLine::default()),
        _ => return None,
    })
}

pub fn object(kind: &str) -> Option<ObjectType> {
    Some(match kind {
        "AcadProxyObject" => ObjectType::AcadProxyObject(AcadProxyObject::default()),
        "DictionaryWithDefault" => ObjectType::DictionaryWithDefault(DictionaryWithDefault::default()),
        "PlaceHolder" => ObjectType::PlaceHolder(PlaceHolder::default()),
        "NavisWorksModelDefinition" => ObjectType::NavisWorksModelDefinition(NavisWorksModelDefinition::default()),
        "DataTable" => ObjectType::DataTable(DataTable::default()),
        "Dictionary" => ObjectType::Dictionary(Dictionary::default()),
        "DictionaryVariable" => ObjectType::DictionaryVariable(DictionaryVariable::default()),
        "DimensionAssoc" => ObjectType::DimensionAssoc(DimensionAssoc::default()),
        "Field" => ObjectType::Field(Field::default()),
        "GeoData" => ObjectType::GeoData(GeoData::default()),
        "Group" => ObjectType::Group(Group::default()),
        "IdBuffer" => ObjectType::IdBuffer(IdBuffer::default()),
        "ImageDefinition" => ObjectType::ImageDefinition(ImageDefinition::default()),
        "ImageDefinitionReactor" => ObjectType::ImageDefinitionReactor(ImageDefinitionReactor::default()),
        "LayerFilter" => ObjectType::LayerFilter(LayerFilter::default()),
        "LayerIndex" => ObjectType::LayerIndex(LayerIndex::default()),
        "Layout" => ObjectType::Layout(Layout::default()),
        "LightList" => ObjectType::LightList(LightList::default()),
        "Material" => ObjectType::Material(Material::default()),
        "MLeaderStyle" => ObjectType::MLeaderStyle(MLeaderStyle::default()),
        "MLineStyle" => ObjectType::MLineStyle(MLineStyle::default()),
        "ObjectPointer" => ObjectType::ObjectPointer(ObjectPointer::default()),
        "PlotSettings" => ObjectType::PlotSettings(PlotSettings::default()),
        "RapidRTRenderEnvironment" => ObjectType::RapidRTRenderEnvironment(RapidRTRenderEnvironment::default()),
        "RapidRenderSettings" => ObjectType::RapidRenderSettings(RapidRenderSettings::default()),
        "RasterVariables" => ObjectType::RasterVariables(RasterVariables::default()),
        "MentalRayRenderSettings" => ObjectType::MentalRayRenderSettings(MentalRayRenderSettings::default()),
        "RenderEnvironment" => ObjectType::RenderEnvironment(RenderEnvironment::default()),
        "RenderGlobal" => ObjectType::RenderGlobal(RenderGlobal::default()),
        "SectionManager" => ObjectType::SectionManager(SectionManager::default()),
        "SectionSettings" => ObjectType::SectionSettings(SectionSettings::default()),
        "SortentsTable" => ObjectType::SortentsTable(SortentsTable::default()),
        "SpatialFilter" => ObjectType::SpatialFilter(SpatialFilter::default()),
        "SpatialIndex" => ObjectType::SpatialIndex(SpatialIndex::default()),
        "SunStudy" => ObjectType::SunStudy(SunStudy::default()),
        "TableStyle" => ObjectType::TableStyle(TableStyle::default()),
        "UnderlayDefinition" => ObjectType::UnderlayDefinition(UnderlayDefinition::default()),
        "VbaProject" => ObjectType::VbaProject(VbaProject::default()),
        "VisualStyle" => ObjectType::VisualStyle(VisualStyle::default()),
        "WipeoutVariables" => ObjectType::WipeoutVariables(WipeoutVariables::default()),
        "XRecordObject" => ObjectType::XRecordObject(XRecordObject::default()),
        _ => return None,
    })
}

pub const ENTITY_KINDS: &[&str] = &["Face3D", "Solid3D", "ProxyEntity", "Arc", "ArcAlignedText", "AttributeDefinition", "Attribute", "Body", "Circle", "RotatedDimension", "RadialDimension", "DiameterDimension", "AngularThreePointDimension", "OrdinateDimension", "Ellipse", "Helix", "Image", "Insert", "Leader", "Light", "Line", "LwPolyline", "MLine", "MText", "OleFrame", "Ole2Frame", "ModelPoint", "Polyline", "Ray", "Region", "RText", "Section", "Seqend", "Shape", "Solid", "Spline", "Text", "Tolerance", "Trace", "DgnUnderlay", "DwfUnderlay", "PdfUnderlay", "Vertex", "Wipeout", "XLine"];
pub const OBJECT_KINDS: &[&str] = &["AcadProxyObject", "DictionaryWithDefault", "PlaceHolder", "NavisWorksModelDefinition", "DataTable", "Dictionary", "DictionaryVariable", "DimensionAssoc", "Field", "GeoData", "Group", "IdBuffer", "ImageDefinition", "ImageDefinitionReactor", "LayerFilter", "LayerIndex", "Layout", "LightList", "Material", "MLeaderStyle", "MLineStyle", "ObjectPointer", "PlotSettings", "RapidRTRenderEnvironment", "RapidRenderSettings", "RasterVariables", "MentalRayRenderSettings", "RenderEnvironment", "RenderGlobal", "SectionManager", "SectionSettings", "SortentsTable", "SpatialFilter", "SpatialIndex", "SunStudy", "TableStyle", "UnderlayDefinition", "VbaProject", "VisualStyle", "WipeoutVariables", "XRecordObject"];
