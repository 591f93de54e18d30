---------------------------- MODULE MCObjects ----------------------------
EXTENDS RecObjects, Records
\* Fields whose value does not survive in the implementation either: two fields of the record
\* share a group code, so no reader can tell them apart (known_findings.jsonl).
MCLossy == 
    {"O.NavisWorksModelDefinition"} \X {"is_host_geometry_drawn", "is_model_loaded_on_drawing_open"}
         \cup
    {"O.Field"} \X {"__objects_handle", "common.__owner_handle"} \cup
    {"O.RapidRTRenderEnvironment"} \X {"is_enabled", "is_map_as_background"} \cup
    {"O.RapidRenderSettings"} \X {"are_back_faces_enabled", "are_materials_enabled", 
        "are_shadows_enabled", "display_index", "filter_height", "filter_width", 
        "is_predefined_render_present", "is_texture_sampling_enabled", "preview_image_file_name", 
        "render_accuracy", "render_duration", "render_level_count_imit", 
        "render_preset_description", "render_preset_name", "render_time_limit", "sampling_filter", 
        "subclass_version"} \cup
    {"O.MentalRayRenderSettings"} \X {"class_version_1", "class_version_2", "diagnostic_bsp_mode", 
        "diagnostic_grid_mode", "diagnostic_mode", "diagnostic_photon_mode", "export_mi_statistics",
         "filter_height", "filter_width", "final_gather_ray_count", 
        "final_gather_sample_radius_maximum", "final_gather_sample_radius_minimum", 
        "global_illumination_depth_maximum", "global_illumination_depth_reflections", 
        "global_illumination_depth_refractions", "global_illumination_radius", "grid_size", 
        "luminance_scale", "map_shadows", "maximum_sampling_rate", "memory_limit", 
        "mi_statistics_file_name", "minimum_sampling_rate", "photons_per_light", "preset_name", 
        "preview_file_name", "ray_tracing", "ray_tracing_depth_maximum", 
        "ray_tracing_depth_reflections", "ray_tracing_depth_refractions", "render_back_faces", 
        "render_materials", "render_shadows", "sample_count", "sampling_contrast_color_alpha", 
        "sampling_contrast_color_blue", "sampling_contrast_color_green", 
        "sampling_contrast_color_red", "sampling_filter_type", "shadow_mode", 
        "texture_sampling_quality", "tile_order", "tile_size", "use_final_gather", 
        "use_final_gather_maximum_radius", "use_final_gather_minimum_radius", 
        "use_final_gather_pixels", "use_global_illumination", "use_global_illumination_radius"} \cup
    {"O.RenderEnvironment"} \X {"far_clipping_plane_distance_percent", "far_fog_density_percent", 
        "fog_color_blue", "fog_color_green", "fog_color_red", "is_background_fog_enabled", 
        "is_fog_enabled", "near_clipping_plane_distance_percent", "near_fog_density_percent", 
        "use_environment_image"} \cup
    {"O.RenderGlobal"} \X {"class_version", "image_height", "image_width", "render_destination", 
        "render_procedure", "save_to_file", "use_high_info_level", "use_predefined_presets_first"}
ASSUME EmitMeta
===========================================================================
