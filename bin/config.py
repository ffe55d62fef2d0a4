"""What each property's check runs: the contract crates, the Verus units, and what is claimed."""
KANI = "function contracts discharged by Kani/CBMC over the real functions, for every parameter and every printer state"
EXEC = "executable contracts with an independent oracle on the real code (bounded)"
NOT_APPLICABLE = {}
VERUS = "contracts and loop invariants spliced onto the functions extracted from /repo, discharged by Verus"
PICTURES = ["with_alpha", "GraphicsCommand::image_from_raster_bytes_single_color"]
SETTLED = VERUS + "; the same contracts discharged a second time by Kani/CBMC, with the functions Verus cannot read"
SETTINGS_C05 = ["set_underline.rs CommandHandler for Handler::apply_context", "set_emphasis.rs CommandHandler for Handler::apply_context", "set_italic.rs CommandHandler for Handler::apply_context", "set_upside_down.rs CommandHandler for Handler::apply_context", "set_smoothing.rs CommandHandler for Handler::apply_context", "set_double_strike.rs CommandHandler for Handler::apply_context", "set_alt_color.rs CommandHandler for Handler::apply_context", "set_black_white_invert.rs CommandHandler for Handler::apply_context", "set_font.rs CommandHandler for Handler::apply_context", "set_print_mode.rs CommandHandler for Handler::apply_context", "set_character_effects.rs CommandHandler for Handler::apply_context", "set_line_spacing.rs CommandHandler for Handler::apply_context", "default_line_spacing.rs CommandHandler for Handler::apply_context", "set_code_table.rs CommandHandler for Handler::apply_context", "set_international_charset.rs CommandHandler for Handler::apply_context", "Font::from_raw", "Font::to_size", "Context::set_font", "bitflags_lsb"]
SETTINGS_C06 = ["set_barcode_font.rs CommandHandler for Handler::apply_context", "set_barcode_height.rs CommandHandler for Handler::apply_context", "set_barcode_hri.rs CommandHandler for Handler::apply_context", "set_barcode_width.rs CommandHandler for Handler::apply_context", "aztec_set_correction_level.rs CommandHandler for Handler::apply_context", "aztec_set_function_and_layers.rs CommandHandler for Handler::apply_context", "aztec_set_size.rs CommandHandler for Handler::apply_context", "composite_set_hri.rs CommandHandler for Handler::apply_context", "composite_set_max_width.rs CommandHandler for Handler::apply_context", "composite_set_width.rs CommandHandler for Handler::apply_context", "datamatrix_set_options.rs CommandHandler for Handler::apply_context", "datamatrix_set_width.rs CommandHandler for Handler::apply_context", "gs1_set_max_width.rs CommandHandler for Handler::apply_context", "gs1_set_width.rs CommandHandler for Handler::apply_context", "maxi_set_mode.rs CommandHandler for Handler::apply_context", "pdf417_set_column_count.rs CommandHandler for Handler::apply_context", "pdf417_set_row_count.rs CommandHandler for Handler::apply_context", "pdf417_set_width.rs CommandHandler for Handler::apply_context", "pdf417_set_options.rs CommandHandler for Handler::apply_context", "qr_set_correction_level.rs CommandHandler for Handler::apply_context", "qr_set_model.rs CommandHandler for Handler::apply_context", "qr_set_size.rs CommandHandler for Handler::apply_context", "aztec_store.rs CommandHandler for Handler::apply_context", "composite_store.rs CommandHandler for Handler::apply_context", "datamatrix_store.rs CommandHandler for Handler::apply_context", "gs1_store.rs CommandHandler for Handler::apply_context", "maxi_store.rs CommandHandler for Handler::apply_context", "pdf417_store.rs CommandHandler for Handler::apply_context"]
SETTINGS_C07 = ["set_motion_units.rs CommandHandler for Handler::apply_context", "set_dot_density.rs CommandHandler for Handler::apply_context", "set_horizontal_pos.rs CommandHandler for Handler::apply_context", "set_vertical_pos.rs CommandHandler for Handler::apply_context", "offset_vertical_pos.rs CommandHandler for Handler::apply_context", "set_horizontal_pos.rs get_pos", "set_vertical_pos.rs get_pos", "offset_vertical_pos.rs get_pos", "PageModeContext::set_x_absolute", "PageModeContext::set_y_absolute", "PageModeContext::offset_x_relative", "PageModeContext::offset_y_relative", "Context::set_x_absolute", "Context::set_y_absolute", "Context::offset_x_relative", "Context::offset_y_relative"]
SETTINGS_C10 = ["page_mode_print_area.rs CommandHandler for Handler::apply_context", "calculate_page_area", "PageModeContext::should_dimension_swap", "PageModeContext::translate_top_left_to_right", "PageModeContext::translate_bottom_right_to_left", "PageModeContext::translate_top_right_to_bottom", "PageModeContext::translate_bottom_left_to_top", "PageModeContext::apply_logical_area", "Context::set_page_area"]
SETTINGS_C11 = ["page_mode_print_direction.rs CommandHandler for Handler::apply_context", "PageModeContext::calculate_directional_rotation"]
PROPS = {
    "C01": {"level": "proof", "crates": ["parser"], "technique": VERUS + " (the parser); " + KANI + " (the parameters); command set and streams executed",
        "verus": {"parser": ["Command::push", "Parser::new", "Parser::emit_command", "Parser::parse", "Parser::parse_bytes"]},
        "functions": ["Parser::parse and lemmas recognised, takes_payload, fixed_command, fixed_hungry over its contract", "Command::push and the push of every command with a fixed number of parameters"],
        "assumptions": ["a command of the set is offered its bytes through Box<dyn CommandHandler>: the parser unit assumes of it what the handlers unit proves of each handler (C02, C03)", "the table of commands (finite) meets the preconditions of the parser unit: executed on the real table (c04_table, c01_set)"],
        "note": "The parser loop from any state at a command boundary, for any command table without ambiguous opcodes: unbounded. Every parameter value of every fixed-length command (Kani). The (finite) command set is executed."},
    "C02": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; " + KANI + "; streams executed",
        "verus": {"parser": ["Command::push", "Parser::parse"], "handlers": ["bit_image.rs CommandHandler for Handler::push", "bit_image.rs new", "raster_bit_image.rs CommandHandler for Handler::push", "raster_bit_image.rs new", "feed_and_cut.rs CommandHandler for Handler::push", "set_character_effects.rs CommandHandler for Handler::push", "set_character_effects.rs new", "CommandHandler for BarcodeHandler::push", "barcode.rs new"]},
        "functions": ["push and new of bit_image, raster_bit_image, feed_and_cut, set_character_effects, barcode", "Parser::parse and lemma takes_payload over its contract"],
        "assumptions": ["a command of the set is offered its bytes through Box<dyn CommandHandler>: the parser unit assumes of it what the handlers unit proves of each handler (C02, C03)", "the table of commands (finite) meets the preconditions of the parser unit: executed on the real table (c04_table, c01_set)"],
        "note": "Every header and every payload length: how many bytes each command takes is an invariant of its push, unbounded. Bounded duplicates in Kani and streams up to 2000 bytes are executed besides."},
    "C03": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; envelopes executed",
        "verus": {"handlers": ["SubCommandHandler::detect_kind", "SubCommandHandler::detect_kind_use_m", "SubCommandHandler::parse_meta", "CommandHandler for SubCommandHandler::push", "CommandHandler for SubCommandHandler::get_subcommand", "subcommands/mod.rs new", "util.rs parse_u16", "util.rs parse_u32"], "parser": ["Command::push", "Parser::emit_command", "Parser::parse"]},
        "functions": ["SubCommandHandler::detect_kind, detect_kind_use_m, parse_meta, push, get_subcommand, new", "parse_u16, parse_u32", "Parser::emit_command, parse"],
        "assumptions": ["a command of the set is offered its bytes through Box<dyn CommandHandler>: the parser unit assumes of it what the handlers unit proves of each handler (C02, C03)", "the table of commands (finite) meets the preconditions of the parser unit: executed on the real table (c04_table, c01_set)", "which functions exist and their selectors (a finite table) is executed"],
        "note": "Every announced size and every payload, both selector rules, over any table of functions: unbounded. The real tables of functions are executed over every selector."},
    "C04": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; " + KANI + "; streams executed",
        "verus": {"parser": ["Command::push", "Parser::new", "Parser::emit_command", "Parser::parse", "Parser::parse_bytes"], "handlers": None},
        "functions": ["Parser::new, emit_command, parse, parse_bytes", "Command::push", "push, get_command_bytes and get_subcommand of every handler"],
        "assumptions": ["a command of the set is offered its bytes through Box<dyn CommandHandler>: the parser unit assumes of it what the handlers unit proves of each handler (C02, C03)", "the table of commands (finite) meets the preconditions of the parser unit: executed on the real table (c04_table, c01_set)"],
        "note": "Every stream of bytes, every parser state and any table of commands meeting the (executed) preconditions: unbounded."},
    "C05": {"level": "proof", "crates": ["parser", "renderer"], "verus": {"settings": SETTINGS_C05, "orders": ["parse_stretch"] + [x + ".rs CommandHandler for Handler::get_device_command" for x in ("set_character_size", "set_justification")]}, "settled_by_kani": ["settings", "orders"], "technique": SETTLED,
        "functions": ["apply_context of every text style command", "Context::set_font", "Context::update_decoder", "Font::from_raw"],
        "assumptions": ["Context::update_decoder changes the decoder alone (decided by C24)"],
        "note": "Every parameter value and every printer state, including stored and buffered graphics (Verus); every value of all scalar state again under Kani."},
    "C06": {"level": "proof", "crates": ["parser"], "verus": {"settings": SETTINGS_C06}, "settled_by_kani": ["settings"], "technique": SETTLED,
        "functions": ["apply_context of set_barcode_* and of every gs_code2d function that sets an option"],
        "assumptions": ["GS ( k 69 for PDF417 (a ratio in f32) is under contract in Kani only: every parameter, every value of the scalar state"],
        "note": "Every parameter value and every printer state, including stored and buffered graphics (Verus); every value of all scalar state again under Kani."},
    "C07": {"level": "proof", "crates": ["parser"], "verus": {"settings": SETTINGS_C07}, "settled_by_kani": ["settings"], "technique": SETTLED,
        "functions": ["apply_context of set_motion_units, set_horizontal_pos, set_vertical_pos, offset_vertical_pos", "Context::set_x_absolute, set_y_absolute, offset_x_relative, offset_y_relative", "PageModeContext::set_x_absolute, set_y_absolute, offset_*"],
        "assumptions": ["u32::saturating_div and i16::saturating_div divide (assumed contract on std)", "positions and areas are below 2^30", "the resolution is one of 203 (power on), 180, 360: the two a command can select (c07_resolution); no other contract changes it"],
        "note": "Every parameter value, every motion unit and every printer state with coordinates below 2^30. Assumed contract: std saturating_div."},
    "C09": {"level": "proof", "crates": ["parser"], "technique": KANI,
        "functions": ["Context::new", "Context::reset", "apply_context of initialize, default_line_spacing"],
        "assumptions": ["heap parts of the state (stored and buffered graphics, stored symbol, tab stops) are covered by execution only"],
        "note": "Every value of all scalar printer state before the command; heap owned parts are executed with a bounded search, not proved."},
    "C12": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; commands executed against an independent decoder",
        "verus": {"pixels": ["unpack_bytes", "RGBA::with_alpha", "GraphicsCommand::image_from_raster_bytes_single_color"]},
        "functions": ["unpack_bytes", "RGBA::with_alpha", "GraphicsCommand::image_from_raster_bytes_single_color"],
        "assumptions": ["that the commands hand width, height, colour and data of their header to the decoder is executed (bounded) and, for the header fields, covered by C02"],
        "note": "The decoder: every width, height, stretch, colour and data of any length, unbounded. The commands around it are executed (bounded)."},
    "C13": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; commands executed against an independent decoder",
        "verus": {"pixels": ["unpack_bytes", "rotate_90_clockwise", "flip_right_to_left", "column_to_bytes", "RGBA::with_alpha", "GraphicsCommand::image_from_raster_bytes_single_color", "GraphicsCommand::image_from_column_bytes_single_color"]},
        "functions": ["unpack_bytes", "rotate_90_clockwise", "flip_right_to_left", "column_to_bytes", "GraphicsCommand::image_from_column_bytes_single_color"],
        "assumptions": ["that the commands hand width, height, colour and data of their header to the decoder is executed (bounded)"],
        "note": "The decoder: every width, height, stretch, colour and data of any length, unbounded. The commands around it are executed (bounded)."},
    "C14": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; the stretch of each command executed",
        "verus": {"pixels": ["scale_pixels", "GraphicsCommand::image_from_raster_bytes_single_color", "GraphicsCommand::image_from_column_bytes_single_color"]},
        "functions": ["scale_pixels", "GraphicsCommand::image_from_raster_bytes_single_color", "GraphicsCommand::image_from_column_bytes_single_color"],
        "assumptions": ["which stretch each command asks for is executed (bounded)"],
        "note": "Scaling: every picture and every pair of factors, unbounded. The stretch each command selects is executed (every mode)."},
    "C15": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; definitions executed",
        "verus": {"pixels": ["merge_image_layers", "RGBA::blend_foreground", "RenderColors::color_for_number", "GraphicsCommand::image_from_raster_bytes_multi_color", "GraphicsCommand::image_from_column_bytes_multi_color"]},
        "functions": ["merge_image_layers", "RGBA::blend_foreground", "RenderColors::color_for_number", "GraphicsCommand::image_from_raster_bytes_multi_color", "GraphicsCommand::image_from_column_bytes_multi_color"],
        "assumptions": ["the contract of RGBA::blend_foreground_with_alpha for the alphas 0 and 255 is assumed here and discharged by Kani in C16", "the derived Clone of Image copies", "that the definition commands hand their header and data to the decoder is executed (bounded)"],
        "note": "Layer split, colours, overlay and length errors: every number of layers and every size below 2^24, unbounded. The commands around it are executed (bounded)."},
    "C16": {"level": "proof", "crates": ["parser"], "technique": KANI + "; the in-between clause enumerated completely",
        "functions": ["RGBA::blend_foreground_with_alpha", "RGBA::multiply_foreground"],
        "note": "The ends and the multiply clauses: every colour and every alpha. In between: all 2^24 channel triples are executed (a complete enumeration, not a deductive proof)."},
    "C17": {"level": "proof", "crates": ["parser"], "technique": VERUS + "; histories executed against a map model",
        "verus": {"store": ["ImageRef::from_data"] + ["%s.rs CommandHandler for Handler::apply_context" % f for f in ("define_nv_graphics_raster", "define_nv_graphics_column", "define_download_graphics_raster", "define_download_graphics_column", "clear_nv_graphic", "clear_download_graphic", "clear_all_nv_graphics", "clear_all_download_graphics")] + ["%s.rs CommandHandler for Handler::get_graphics" % f for f in ("print_nv_graphic", "print_download_graphics")], "frames": ["Handler::apply_context"]},
        "functions": ["apply_context of the four definition and the four deletion commands", "get_graphics of the two print commands", "ImageRef::from_data", "lemmas c17_last_definition, c17_others_stay, c17_deleted, c17_all_deleted over their contracts", "apply_context of every settings command (leaves what is stored as it is)"],
        "assumptions": ["HashMap<ImageRef, GraphicsCommand> is a finite map and retain keeps what its closure accepts (assumed contracts on std)", "the decoders are functions of their arguments (what they yield: C12 to C15)", "the contracts of the functions the settings commands call (set_font, set_x_absolute, ...) are decided in C05 and C07", "histories through the parser, and the commands without a contract here (QR store, PDF417 ratio, initialize), are executed (bounded)"],
        "note": "Every store, key, definition and deletion: unbounded, one command at a time, with the laws of a history as lemmas. Histories through the whole parser are executed (bounded)."},
    "C24": {"level": "proof", "crates": ["parser"], "technique": KANI + "; the tables enumerated completely",
        "functions": ["apply_context of set_code_table and set_international_charset", "Context::update_decoder", "Codepage::decode (executed)"],
        "note": "The selection logic: every table, set and prior state. The contents of the tables: every table, set and byte executed (a complete enumeration, not a deductive proof) against independently generated tables; the replacement characters of the international sets are a snapshot."},
    "C25": {"level": "proof", "crates": ["parser"], "technique": KANI + "; the module patterns executed",
        "functions": ["UPCE::new (6, 7, 8, 11 and 12 digits)"],
        "note": "Compression, expansion, parity and check digit: every digit string of the five lengths. The 51 modules and strings with other characters are executed (bounded)."},
    "C26": {"level": "other", "crates": ["parser"], "technique": EXEC, "functions": [], "native_secs": 4, "note": "Bounded: every kind executed against independent validity rules and the barcoders symbologies."},
    "C27": {"level": "other", "crates": ["parser"], "technique": EXEC, "functions": [], "native_secs": 10, "note": "Bounded: stored data executed against an independent choice of version and the qr_code encoder."},
    "C28": {"level": "other", "crates": ["parser"], "technique": EXEC, "functions": [], "native_secs": 4, "note": "Bounded: texts executed against an independent reading of the format."},
    "C29": {"level": "other", "crates": ["parser"], "technique": EXEC, "functions": [], "native_secs": 4, "note": "Bounded: streams written and read back."},
    "C31": {"level": "other", "crates": ["parser", "renderer"], "technique": EXEC, "functions": [], "native_secs": 6, "note": "Bounded: streams executed through every handler."},
    "C08": {"level": "proof", "crates": ["parser", "steps", "renderer"], "technique": KANI + "; " + VERUS + " (moves of the position, the order of text and move, what each command asks for); whole jobs executed",
        "verus": {"jobs_moves": ["Renderer::process_command", "Renderer::log_error"], "orders": [x + ".rs CommandHandler for Handler::get_device_command" for x in ("print_and_feed", "print_and_feed_lines", "print_and_reverse_feed_lines", "formfeed", "feed_and_cut", "page_mode_print_data", "end_print")],
                  "layout": ["Context::newline_for_spans", "Context::feed", "Context::newline", "Context::reverse_newline", "PageModeContext::offset_x", "PageModeContext::offset_y", "PageModeContext::set_x", "PageModeContext::set_y", "Context::get_base_x", "Context::get_base_y", "Context::reset_x", "Context::reset_y", "Context::set_x", "Context::set_y", "Context::offset_x", "Context::offset_y"]},
        "verus_thorough": {"devices": ["Renderer::process_device_commands"]}, "settled_by_kani": ["orders"],
        "functions": ["Renderer::process_command (pending text first)", "Renderer::process_device_commands (the loop over device commands, thorough tier)", "Context::feed, newline, reverse_newline, newline_for_spans", "get_device_command of print_and_feed, print_and_feed_lines, print_and_reverse_feed_lines, formfeed, feed_and_cut", "Renderer::process_device_commands (Feed, FeedLine, FullCut, PartialCut, EndPageMode, PrintPageMode, EndPrint)"],
        "assumptions": ["positions and areas are below 2^29", "what a handler yields is a function of the command and the printer (its device commands: of page mode and the power-on state only)", "printing the pending text leaves none and keeps page mode (unit layout)", "newline_for_spans and the moves of the position: Verus, sizes as in C22"],
        "note": "Every command parameter and every printer position below 2^29 for the moves and the device commands; the pending text comes first before every command of these kinds (Verus). Whole jobs are executed besides (bounded)."},
    "C10": {"level": "proof", "crates": ["parser", "steps", "renderer"], "verus": {"settings": SETTINGS_C10, "orders": ["page_mode_print_area.rs CommandHandler for Handler::get_device_command"]}, "settled_by_kani": ["settings", "orders"], "technique": SETTLED + "; whole jobs executed",
        "functions": ["PageModeContext::apply_logical_area and the four translations", "Context::set_page_area", "apply_context of page_mode_print_area", "Renderer::process_device_commands (ChangePageArea, ChangePageModeDirection)"],
        "assumptions": ["areas and page sizes are below 2^29", "u32::saturating_div divides (assumed contract on std)"],
        "note": "Every area, page, direction and motion unit (sizes below 2^29). The sequence of commands of a job is executed."},
    "C11": {"level": "proof", "crates": ["parser", "steps", "renderer"], "verus": {"settings": SETTINGS_C11, "orders": ["page_mode_print_direction.rs CommandHandler for Handler::get_device_command"]}, "settled_by_kani": ["settings", "orders"], "technique": SETTLED + "; pages executed to pixels",
        "functions": ["PageModeContext::calculate_directional_rotation", "apply_context of page_mode_print_direction", "Renderer::process_device_commands (ChangePageArea, ChangePageModeDirection)"],
        "note": "All directions: the turn of a change, composition and inverse. That the canvas is turned by it, and turned back when printed, is executed to pixels (bounded) on top of C19."},
    "C18": {"level": "proof", "crates": ["steps", "renderer"], "technique": VERUS + " (storing, printing, merging); " + KANI + " (clearing); jobs executed",
        "verus": {"pixels": ["merge_image_layers", "RGBA::blend_foreground"], "store": ["store_buffer_graphics_raster.rs CommandHandler for Handler::apply_context", "store_buffer_graphics_column.rs CommandHandler for Handler::apply_context", "print_buffer_graphics.rs CommandHandler for Handler::get_graphics"], "frames": ["Handler::apply_context"], "orders": ["print_buffer_graphics.rs CommandHandler for Handler::get_device_command"], "jobs_graphics": ["Renderer::process_command"]},
        "functions": ["merge_image_layers", "apply_context of the two store commands", "get_graphics and get_device_command of print_buffer_graphics", "Renderer::process_command (graphics: text, picture, then its device commands)", "lemma c18_appended_last over their contracts", "apply_context of every settings command (leaves the buffer as it is)", "Renderer::process_device_commands (ClearBufferGraphics)"],
        "assumptions": ["the contracts of the functions the settings commands call (set_font, set_x_absolute, ...) are decided in C05 and C07", "the commands without a contract here (QR store, PDF417 ratio, initialize) leave the buffer as documented: executed (bounded)", "the contract of RGBA::blend_foreground_with_alpha for the alphas 0 and 255 is assumed here and discharged by Kani in C16"],
        "note": "The merge in order and its errors: every number and size of layers, unbounded; clearing the buffer: Kani, buffers of up to two graphics. The sequence of commands is executed against a model (bounded)."},
    "C19": {"level": "proof", "crates": ["renderer"], "technique": VERUS + "; canvases executed",
        "verus": {"canvas": ["ThermalImage::rotate_90", "ThermalImage::rotate_180", "ThermalImage::rotate_270", "ThermalImage::get_height", "RGBA::blank"]},
        "functions": ["ThermalImage::rotate_90, rotate_180, rotate_270, get_height", "lemmas two_quarters, two_halves, turn_and_back, back_and_turn, four_quarters over their contracts"],
        "assumptions": ["a canvas is a whole number of rows and has fewer than 2^32 pixels (every function that changes the canvas keeps this: C20, C21)"],
        "note": "Every canvas of fewer than 2^32 pixels, unbounded; the algebra of turns is proved as lemmas over the contracts."},
    "C20": {"level": "proof", "crates": ["renderer"], "technique": VERUS + "; pictures executed",
        "verus": {"canvas": ["ThermalImage::put_pixels", "ThermalImage::crop_pixels", "ThermalImage::expand_to_height", "ThermalImage::draw_rect", "ThermalImage::put_rect", "ThermalImage::put_render_img", "ThermalImage::flip_pixels", "ThermalImage::draw_border", "ThermalImage::get_height"]},
        "functions": ["ThermalImage::put_pixels, crop_pixels, expand_to_height, draw_rect, put_rect, put_render_img, flip_pixels, draw_border, get_height"],
        "assumptions": ["a canvas is a whole number of rows and canvas, picture and grown canvas have fewer than 2^32 pixels", "what combining two pixels gives is C16; here only which pixels are combined", "slice::swap exchanges two elements (assumed contract on std)", "the texts of the reported errors are not specified"],
        "note": "Every canvas, picture and position with fewer than 2^32 pixels, unbounded. That text and symbols are drawn through these functions is executed (bounded)."},
    "C21": {"level": "proof", "crates": ["renderer"], "technique": VERUS + "; canvases executed",
        "verus": {"canvas": ["ThermalImage::expand_to_height", "ThermalImage::expand_to_width", "ThermalImage::add_top_margin", "ThermalImage::crop_pixels", "ThermalImage::get_height", "ThermalImage::set_width", "ThermalImage::reset", "ThermalImage::empty", "ThermalImage::copy", "ThermalImage::consume_rgb_u8"]},
        "functions": ["ThermalImage::expand_to_height, expand_to_width, add_top_margin, crop_pixels, get_height, set_width, reset, empty, copy, consume_rgb_u8"],
        "assumptions": ["the grown canvas has fewer than 2^32 pixels and grows by less than 2^24 columns", "half of a number below 2^24 computed in f32 and rounded down is its integer half; Vec::splice at an empty range inserts; Vec::try_reserve changes no element (assumed contracts on std)"],
        "note": "Every canvas and every new size with fewer than 2^32 pixels, unbounded."},
    "C22": {"level": "proof", "crates": ["renderer"], "technique": VERUS + "; texts executed", "native_secs": 6,
        "verus": {"layout": ["Renderer::process_text", "Renderer::collect_text", "TextSpan::break_apart", "TextSpan::break_into_words", "TextSpan::get_dimensions", "TextSpan::get_width", "TextSpan::clone_with", "TextSpan::character_count", "Context::newline_for_spans", "Context::get_available_width", "Context::get_width", "Context::set_x", "Context::offset_x", "Context::get_x", "Context::get_base_x"]},
        "functions": ["Renderer::process_text, collect_text", "TextSpan::break_apart, break_into_words, get_dimensions, get_width, clone_with, character_count", "Context::newline_for_spans, get_available_width, get_width, set_x, offset_x, get_x, get_base_x", "lemmas every_character_once, nothing_lost, all_words over their contracts"],
        "assumptions": ["positions, widths and areas are below 2^29, characters up to 256 dots wide and high, at most 256 tab stops and 2^21 pending characters", "the white space that ends a word is what char::is_whitespace says (left unspecified)", "that each text command collects its text and that every other command prints the pending text first is executed (c22_*, c08_job_*), not proved"],
        "note": "Every text, every state of the printer within the stated sizes: unbounded in the number and length of spans, words and lines."},
    "C23": {"level": "proof", "crates": ["parser", "steps", "renderer"], "technique": VERUS + "; symbols and jobs executed",
        "verus": {"layout": ["Renderer::process_barcode", "Renderer::process_code_2d", "Renderer::process_image", "Renderer::process_text", "Renderer::collect_text", "Context::calculate_justification", "Context::get_available_width", "Context::newline", "Context::set_x", "Context::offset_x", "Context::offset_y", "Context::reset_x", "Context::get_x", "Context::get_y"]},
        "functions": ["Renderer::process_barcode, process_code_2d, process_image, process_text, collect_text", "Context::calculate_justification, get_available_width, newline, set_x, offset_x, offset_y, reset_x, get_x, get_y"],
        "assumptions": ["positions and areas are below 2^29, symbols have at most 2^20 modules, 2D codes are below 2^28 dots wide and have at least two columns", "that a graphics command hands its symbol to these functions is executed (c23_job_*)"],
        "note": "Every symbol, image and printer state within the stated sizes, unbounded in the number of modules."},
    "C30": {"level": "other", "crates": ["renderer"], "technique": EXEC, "functions": [], "native_secs": 4, "note": "Bounded: printed text executed through the HTML output and read back."},
}
