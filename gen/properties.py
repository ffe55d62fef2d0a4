import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    if hook: d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
PP="thermal_parser/src/"
RR="thermal_renderer/src/"
p("C01","Commands with a fixed number of parameters are framed exactly",
 "Every documented ESC/POS command that has a fixed number of parameter bytes is recognised by its command bytes alone and takes exactly that number of following bytes, in order and whatever their values are. The byte after its last parameter always starts something new (text or another command), and text runs from one command to the next without losing, gaining or reordering a byte.",
 ["inputs"],"for every fixed-length command, every value of its parameter bytes (including bytes that look like a command prefix), and every command or text before and after it",
 "The tests parse a few short streams with harmless parameter values; a wrong length, or an opcode that swallows its neighbour, shows only for commands and neighbours they do not use.",
 [PP+"command.rs",PP+"parser.rs",PP+"command_sets/esc_pos.rs",PP+"commands/"],
 [("fixed data kinds bound what a command accepts",PP+"command.rs Command::push"),("prefix matching against the command set",PP+"parser.rs Parser::parse"),("opcode and parameter count of each command",PP+"commands/*.rs new()")],
 ["thermal_parser::parse_esc_pos"])
p("C02","Commands that carry their own payload length take exactly that payload",
 "A column bit image takes 1 or 3 bytes per column for the announced number of columns, a raster bit image takes announced row bytes times announced rows, a cut takes a feed amount only in its feeding forms, a character-effects command takes its announced number of parameters, and a barcode takes either everything up to its NUL terminator or exactly its announced number of bytes. No payload byte is ever taken for a command, and the byte after the payload is never part of it.",
 ["inputs"],"for every header value (all mode bytes, all 16-bit counts), every payload content, including payload bytes equal to command prefixes, and payloads cut short by the end of the stream",
 "The tests use one or two well-formed images and barcodes; the length arithmetic over 16-bit headers and the end of the payload are not sampled.",
 [PP+"commands/bit_image.rs",PP+"commands/raster_bit_image.rs",PP+"commands/feed_and_cut.rs",PP+"commands/set_character_effects.rs",PP+"commands/barcode.rs"],
 [("the handler decides for each byte whether it still belongs to the payload","push of each handler"),("capacity computed from the header","bit_image.rs, raster_bit_image.rs push")],
 ["thermal_parser::parse_esc_pos"])
p("C03","2D code and graphics envelopes reach the right function with their parameters",
 "A 2D-code or graphics command announces the size of what follows; exactly that many bytes, but at least the two selector bytes, belong to it (with a two-byte size, or a four-byte size in the large form), of which the first two select the function and the rest are delivered to that function unchanged and in order. 2D-code functions are selected by symbol type and function number together, graphics functions by function number, and a selector that names no function leaves the command as a whole without any effect but still takes exactly its announced bytes.",
 ["inputs"],"for every envelope size, every pair of selector bytes (all 65536), every parameter content, in both the normal and the large form, whatever precedes or follows",
 "The tests store and print one QR code and a few graphics; nearly all of the 65536 selectors and all size boundaries are untested.",
 [PP+"subcommands/mod.rs",PP+"subcommands/gs_code2d/mod.rs",PP+"subcommands/gs_graphics/mod.rs",PP+"commands/code_2d.rs",PP+"commands/graphics.rs",PP+"commands/large_graphics.rs",PP+"parser.rs"],
 [("size and selector decoding",PP+"subcommands/mod.rs SubCommandHandler::parse_meta"),("function lookup",PP+"subcommands/mod.rs detect_kind, detect_kind_use_m"),("the function replaces its envelope in the output",PP+"parser.rs emit_command")],
 ["thermal_parser::parse_esc_pos"])
p("C04","Parsing loses, invents and reorders no byte",
 "Parsing any byte stream yields a begin marker, then a sequence of commands whose own bytes (command bytes followed by data), concatenated in order, are exactly the stream, then an end marker. This holds for unknown commands, abandoned command prefixes and commands cut off by the end of the stream as well, and a parser that has parsed one stream parses the next one as if it were new.",
 ["inputs","histories"],"for every finite byte stream, and every sequence of streams given to the same parser",
 "The property is about all byte strings, in particular malformed and truncated ones; the tests parse a handful of well-formed ones.",
 [PP+"parser.rs",PP+"command.rs",PP+"subcommands/mod.rs",PP+"commands/"],
 [("bytes are buffered while a prefix is matched and handed on when it fails",PP+"parser.rs Parser::parse"),("end of stream flush",PP+"parser.rs Parser::parse_bytes"),("each command can rebuild its bytes","get_command_bytes of each handler")],
 ["thermal_parser::parse_esc_pos, CommandHandler::get_command_bytes"])
p("C05","A text style command sets its documented attribute and nothing else",
 "Every text style command (underline, emphasis, italic, double strike, upside down, smoothing, font, print mode, character size, colours and inversion, character effects, justification, line spacing, character set and code table) sets the documented attribute to the documented value for every parameter. All other printer state stays exactly as it was, whatever it was, so attributes set earlier survive any sequence of other style commands.",
 ["inputs","histories"],"for every command, every parameter value and every prior printer state, hence every sequence of style commands",
 "The frame condition (nothing else changes) quantifies over all prior states and parameters; the rendering tests compare a few pictures.",
 [PP+"commands/",PP+"context.rs"],
 [("each command writes its own attribute","apply_context of each style command"),("character size and justification are executed by the renderer",RR+"renderer.rs process_device_commands")],
 ["Context after each command"])
p("C06","Barcode and 2D code settings are stored exactly and independently",
 "Each barcode setting (height, module width, position and font of the readable text) and each setting of a 2D symbology (QR, PDF417, MaxiCode, GS1 DataBar, composite, Aztec, Data Matrix) takes the documented value for each parameter, ignores or clamps out-of-range parameters as documented, and changes no setting of itself or any other symbology besides its own. A later symbol is therefore built with the settings last given for it, in whatever order they were given.",
 ["inputs","histories"],"for every setting command, every parameter string and every prior state",
 "About thirty commands with overlapping encodings; the tests exercise the settings of one QR code.",
 [PP+"commands/set_barcode_width.rs",PP+"commands/set_barcode_height.rs",PP+"commands/set_barcode_hri.rs",PP+"commands/set_barcode_font.rs",PP+"subcommands/gs_code2d/"],
 [("each handler writes its own field","apply_context of the gs_code2d and set_barcode_* handlers")],["Context after each command"])
p("C07","Positions are measured in motion units and never leave the top or left edge",
 "Setting motion units makes one unit the printer resolution divided by the parameter (at least one dot, zero parameters are ignored), and every absolute or relative position is its parameter divided by the unit of its axis. Absolute horizontal positions work in both modes, absolute and relative vertical positions only in page mode, where they follow the print direction; a relative move never goes beyond zero, and a position command changes nothing but the position.",
 ["inputs","histories","configurations"],"for every 16-bit parameter, every motion unit, every direction, both modes and every prior position",
 "The arithmetic spans 16-bit signed and unsigned ranges in four directions and two modes; the tests place a few items in one configuration.",
 [PP+"commands/set_motion_units.rs",PP+"commands/set_horizontal_pos.rs",PP+"commands/set_vertical_pos.rs",PP+"commands/offset_vertical_pos.rs",PP+"context.rs"],
 [("division by the motion unit",PP+"context.rs set_x_absolute, set_y_absolute, offset_*_relative"),("direction dependent axes",PP+"context.rs PageModeContext::set_x_absolute, set_y_absolute")],["Context after each command"])
p("C08","Feeds, line feeds and cuts move the paper by exactly the announced amount",
 "A feed moves down by its parameter, a line feed by the line spacing (or the tallest text of the line if that is taller), feeding n lines by n line spacings, a reverse feed up by n line spacings but never beyond the top, and a cut by two lines plus its feed amount if it has one; each returns to the left edge and pending text is printed before the move. A form feed in page mode ends page mode and prints the page; outside of page mode it ends the print job.",
 ["inputs","histories"],"for every parameter, every line spacing, every pending text and every prior position in both modes",
 "Vertical positions accumulate over the history; the tests look at one or two fixed receipts.",
 [RR+"renderer.rs",PP+"commands/print_and_feed.rs",PP+"commands/print_and_feed_lines.rs",PP+"commands/print_and_reverse_feed_lines.rs",PP+"commands/feed_and_cut.rs",PP+"commands/formfeed.rs",PP+"context.rs"],
 [("device commands carry the amount","get_device_command of the feed and cut commands"),("they are executed by the renderer",RR+"renderer.rs process_device_commands"),("newline, reverse_newline, feed",PP+"context.rs")],
 ["what an OutputRenderer is given"],None)
p("C09","Initialize restores the power-on state",
 "After an initialize command every text style, barcode setting, 2D code setting, colour, motion unit, resolution, stored and buffered graphic and standard-mode position has its power-on value, whatever was sent before. Page mode, its areas and direction are left as they are, and the power-on values themselves can not be changed by any command.",
 ["histories"],"for every prior printer state, hence every history of commands",
 "Quantifies over all prior states; a forgotten or newly added attribute is only seen by a history that changed it first.",
 [PP+"context.rs",PP+"commands/initialize.rs",PP+"commands/default_line_spacing.rs"],
 [("a pristine copy of the state is kept and copied back",PP+"context.rs Context::new, reset")],["Context after the command"])
p("C10","The page mode print area is placed correctly and the page grows to hold it",
 "In page mode an area command with origin and size (divided by the motion units) yields a print area of that size (with width and height exchanged in the two vertical directions) located at that origin as seen from the starting corner of the print direction, mirrored within the current page where the direction requires. The page always grows just enough to contain the print area, never shrinks, and exchanges width and height exactly when the direction changes between horizontal and vertical.",
 ["inputs","configurations","histories"],"for every area, page size, motion unit and pair of previous and current direction",
 "Four directions times arbitrary areas and histories of areas; the tests render two sample page mode receipts.",
 [PP+"context.rs",PP+"commands/page_mode_print_area.rs",RR+"renderer.rs"],
 [("translation per direction",PP+"context.rs PageModeContext::apply_logical_area, translate_*"),("logical area from the command",PP+"context.rs Context::set_page_area")],["Context::page_mode, OutputRenderer::page_area_changed"])
p("C11","Page direction changes compose to the right rotation of the page",
 "Whenever the print direction changes, the page is rotated by exactly the quarter turns between the previous and the new direction; a sequence of changes is equivalent to the direct change from the first to the last direction and a direction change back undoes it. Setting an area without changing the direction rotates nothing, and when the page is printed it is turned back to the standard direction.",
 ["inputs","histories","configurations"],"for every pair of directions and every sequence of direction and area commands, including repeated and invalid direction parameters",
 "Composition over histories of arbitrary length; the tests use single direction changes in sample receipts.",
 [PP+"context.rs",PP+"commands/page_mode_print_direction.rs",RR+"renderer.rs",RR+"image_renderer/mod.rs"],
 [("difference of directions modulo four",PP+"context.rs calculate_directional_rotation"),("previous direction is remembered",PP+"commands/page_mode_print_direction.rs"),("page image is rotated",RR+"image_renderer/mod.rs page_area_changed, render_page")],["OutputRenderer::page_area_changed"])
p("C12","Raster images decode bit for bit",
 "A raster image of width w and height h decodes to exactly w times h pixels in which the pixel in column x of row y is set exactly when bit 7 - (x mod 8) of byte x div 8 of that row is set, rows being padded to whole bytes. Set pixels have the selected colour and are opaque, others are transparent, and data of any other length yields an error instead of an image.",
 ["inputs"],"for every width and height (also not divisible by eight), every data content and every length of data",
 "Widths that are not multiples of eight and wrong lengths are where padding goes wrong; sample images do not cover all sizes or pixels.",
 [PP+"graphics.rs",PP+"commands/raster_bit_image.rs"],
 [("bit unpacking with row padding",PP+"graphics.rs unpack_bytes"),("length check",PP+"graphics.rs image_from_raster_bytes_single_color")],["GraphicsCommand of the command"])
p("C13","Column images decode bit for bit",
 "A column image of width w and height h decodes to exactly w times h pixels in which the pixel in column x of row y is set exactly when bit 7 - (y mod 8) of byte y div 8 of column x is set, columns being padded to whole bytes. Set pixels have the selected colour and are opaque, others are transparent, and data of any other length yields an error instead of an image.",
 ["inputs"],"for every width and height (also heights not divisible by eight), every data content and every length of data",
 "The decoding is a composition of unpacking, rotation and flip over all sizes; one sample image can not tell it from many wrong ones.",
 [PP+"graphics.rs",PP+"commands/bit_image.rs"],
 [("unpack, rotate, flip",PP+"graphics.rs column_to_bytes, rotate_90_clockwise, flip_right_to_left"),("length check",PP+"graphics.rs image_from_column_bytes_single_color")],["GraphicsCommand of the command"])
p("C14","Scaled images repeat every pixel exactly",
 "Scaling an image by factors a and b yields an image of a times its width and b times its height in which the pixel at (x, y) is the original pixel at (x div a, y div b); a factor of zero counts as one. The stretch of each image command is the documented one for its mode: single density column images by (2, 3), raster images by 1 or 2 per axis, buffered graphics by 1 or 2 per axis.",
 ["inputs"],"for every image size, content and scale factor",
 "All sizes and factors; the tests do not look at scaled pixels at all.",
 [PP+"graphics.rs",PP+"commands/bit_image.rs",PP+"commands/raster_bit_image.rs",PP+"subcommands/gs_graphics/store_buffer_graphics_raster.rs",PP+"subcommands/gs_graphics/store_buffer_graphics_column.rs"],
 [("scale_pixels",PP+"graphics.rs"),("stretch per mode","bit_image.rs, raster_bit_image.rs, store_buffer_graphics_*.rs")],["scale_pixels and the decoded images"])
p("C15","Multi colour images combine all their layers",
 "A graphic defined with n colour layers decodes each layer with the colour of its own colour number and overlays the layers in order, so every pixel shows the last layer that sets it and is blank where no layer does. Data whose length is not n times the layer size yields an error.",
 ["inputs"],"for every number of layers, colour numbers, sizes and contents, in raster and column format",
 "The tests define no multi colour graphics.",
 [PP+"graphics.rs",PP+"subcommands/gs_graphics/define_nv_graphics_raster.rs",PP+"context.rs"],
 [("layer split",PP+"graphics.rs image_from_raster_bytes_multi_color, image_from_column_bytes_multi_color"),("overlay",PP+"graphics.rs merge_image_layers"),("colour numbers",PP+"context.rs RenderColors::color_for_number")],["GraphicsCommand of the definition"])
p("C16","Blending follows the alpha and is exact at its ends",
 "Blending a colour onto a pixel with alpha 0 changes nothing, with alpha 255 yields exactly that colour, and in between every channel lies between the two colours. Multiplying never brightens a channel, black stays black, opaque white changes nothing and a transparent colour changes nothing.",
 ["inputs"],"for every pair of colours and every alpha (2^32 combinations per channel triple)",
 "Floating point rounding over all 256^3 channel and alpha values; the tests blend no colours explicitly.",
 [PP+"graphics.rs"],
 [("blend_foreground_with_alpha, multiply_foreground",PP+"graphics.rs")],["RGBA"])
p("C17","Stored graphics are kept per key code and storage until deleted",
 "Defining a graphic under a pair of key codes stores or replaces exactly the graphic with those key codes in its own storage (non-volatile or download), printing it yields exactly what was last defined, and printing an unknown key prints nothing. Deleting one graphic removes just that one, deleting all of a storage removes all of that storage and nothing of the other.",
 ["inputs","histories"],"for every sequence of define, print and delete commands over all key codes and both storages",
 "A map keyed by 2 x 65536 references under arbitrary histories; the tests define at most one graphic.",
 [PP+"subcommands/gs_graphics/",PP+"graphics.rs"],
 [("one table keyed by key codes and storage",PP+"graphics.rs ImageRef, context.rs stored_graphics")],["Context::graphics and the printed graphic"])
p("C18","Buffered graphics accumulate in order and are printed once",
 "Each store command appends exactly one graphic to the print buffer, and printing the buffer combines all buffered graphics in the order they were stored, earlier ones below later ones, and then empties it. A malformed store command or a malformed buffered graphic is reported as an error instead of a picture, as is a buffered graphic larger than the first, an empty buffer prints nothing, and nothing else adds to or takes from the buffer except initialize.",
 ["inputs","histories"],"for every sequence of store and print commands",
 "Quantifies over histories of the buffer; the tests print the buffer once.",
 [PP+"subcommands/gs_graphics/store_buffer_graphics_raster.rs",PP+"subcommands/gs_graphics/store_buffer_graphics_column.rs",PP+"subcommands/gs_graphics/print_buffer_graphics.rs",RR+"renderer.rs"],
 [("append, merge, clear","store_buffer_graphics_*.rs, print_buffer_graphics.rs, ClearBufferGraphics in renderer.rs")],["what an OutputRenderer is given"])
p("C19","Rotating a canvas moves every pixel to its rotated place",
 "Rotating a canvas by 90, 180 or 270 degrees clockwise moves every pixel to its rotated position, exchanges width and height for quarter turns, and loses or duplicates no pixel. Four quarter turns, two half turns, or a turn and its opposite restore the canvas exactly.",
 ["inputs","histories"],"for every canvas size and content",
 "All sizes, in particular non-square ones, and all pixels; sample pictures are compared only after other operations.",
 [RR+"image_renderer/thermal_image.rs"],
 [("rotate_90, rotate_180, rotate_270",RR+"image_renderer/thermal_image.rs")],["ThermalImage::copy"])
p("C20","Drawing clips to the canvas and touches nothing outside its rectangle",
 "Drawing a picture at a position combines each picture pixel with the canvas pixel at that position offset, clips what lies to the right of the canvas (and below it when the height is locked), lets an unlocked canvas grow downwards as needed, and changes no other pixel. A picture that lies completely outside, or whose pixel count does not match its size, changes nothing and is reported.",
 ["inputs","configurations"],"for every canvas, picture size, position, and both height policies",
 "Clipping involves every relation between position, size and canvas; sample receipts never draw across an edge.",
 [RR+"image_renderer/thermal_image.rs"],
 [("bounds check, crop, copy loop",RR+"image_renderer/thermal_image.rs put_pixels, crop_pixels")],["ThermalImage::copy"])
p("C21","Growing a canvas keeps the picture and adds only blank paper",
 "Growing a canvas in height keeps every existing pixel in place and adds rows of paper colour below; growing in width keeps every row of the picture in order, horizontally centred, and adds only paper colour on both sides. Asking for a smaller size changes nothing, adding a top margin moves the picture down by exactly that many rows, and cropping keeps the top left part unchanged.",
 ["inputs"],"for every canvas size, content and requested size",
 "All sizes and contents, including odd differences and empty canvases.",
 [RR+"image_renderer/thermal_image.rs"],
 [("expand_to_height, expand_to_width, add_top_margin, crop_pixels",RR+"image_renderer/thermal_image.rs")],["ThermalImage::copy"])
p("C22","Text layout prints every character once, in order, inside the line",
 "All printable text is handed to the output in reading order with no character lost, repeated or changed in style, text never extends beyond the width of the print area unless a single character is wider than it, and a word (with the white space that ends it) is broken only when it does not fit an empty line. Each line is offset as a whole by its justification: left by nothing, right by all of the width that remains on it, centred by half of that.",
 ["inputs","histories","configurations"],"for every text, mix of styles and sizes, justification and width of the print area",
 "Line breaking is a loop over arbitrary text, widths and styles; the tests compare pictures of a few receipts.",
 [RR+"renderer.rs",PP+"text.rs"],
 [("word splitting and breaking",PP+"text.rs break_into_words, break_apart"),("line building and justification",RR+"renderer.rs process_text")],["OutputRenderer::render_text"])
p("C23","Barcodes, 2D codes and images are placed inside the print area",
 "A barcode or 2D code draws one rectangle of the selected size for each dark module at exactly its column and row, starting at the offset given by the justification, and draws nothing beyond the right edge of the print area. A block image in standard mode is placed at its justification and advances the paper by its height, an inline image advances to the right and wraps when it does not fit, and afterwards printing continues at the left edge below a barcode or block image.",
 ["inputs","configurations"],"for every module pattern, module size, image size, justification and width of the print area",
 "All sizes relative to the print area; the tests print codes that fit.",
 [RR+"renderer.rs",PP+"context.rs"],
 [("process_code_2d, process_barcode, process_image",RR+"renderer.rs"),("calculate_justification",PP+"context.rs")],["OutputRenderer::render_graphics, render_image"])
p("C24","Text decodes by the selected code table and character set, byte for byte",
 "Text decodes one byte at a time, without losing or adding anything: bytes below 128 to ASCII except for the replacements of the selected international character set, bytes from 128 to the character of the selected code table at that position, and with the unicode table to the UTF-8 text itself. Unsupported tables and sets behave like table 0 and set 0, the last selection of each counts independently of the order in which they were made, and selecting a table or set never changes the other.",
 ["inputs","configurations","histories"],"for every code table (256), character set (256), byte value and every order of selecting them",
 "65536 combinations of table and set times 256 bytes; the tests render one text per supported table.",
 [PP+"decoder/mod.rs",PP+"decoder/international.rs",PP+"context.rs",PP+"commands/set_code_table.rs",PP+"commands/set_international_charset.rs"],
 [("table composed of base, code page and replacements",PP+"decoder/mod.rs get_codepage"),("decoder rebuilt on both selections",PP+"context.rs update_decoder")],["TextSpan of a text command"])
p("C25","UPC-E symbols carry exactly the number they were given",
 "Every accepted UPC-E input (6, 7 or 8 digits, or an 11 or 12 digit UPC-A number) yields a 51 module symbol that, read back by the published digit and parity patterns, expands to the same UPC-A number and check digit. Every input that is not a number of those lengths, has a number system other than 0 or 1, or is a UPC-A number that can not be shortened is rejected.",
 ["inputs"],"for every string, in particular all 10^12 twelve digit numbers",
 "The tests check five numbers; the zero suppression cases and the parity table have 20 rows and four compression rules.",
 [PP+"utils/barcodes/upce.rs"],
 [("compression and expansion rules",PP+"utils/barcodes/upce.rs from_upc_a, from_upc_e"),("parity table",PP+"utils/barcodes/upce.rs UPCE_PARITY_TABLE")],["UPCE::new, encode"])
p("C26","Barcodes print what was sent or report an error",
 "Every barcode command yields either a symbol of the selected kind that encodes exactly the data sent (check digits of UPC-A and EAN-13 are calculated, asterisks of CODE39 are its start and stop marks), with the current module width, height and text position and the data as readable text, or an error; it never panics. Data whose length is wrong for the selected kind is always an error, and the same kind selected by its lower or its upper code gives the same symbol.",
 ["inputs"],"for every kind code, every data string (also non-ASCII and non-UTF-8) and every barcode setting",
 "All byte strings for about a dozen symbologies; the tests print one valid example of each.",
 [PP+"commands/barcode.rs"],
 [("length validation, dispatch and error reporting",PP+"commands/barcode.rs get_graphics, validate_data_length")],["GraphicsCommand of the command"])
p("C27","A QR code prints the data that was last stored",
 "Storing data that fits the selected QR model at the selected error correction level produces a symbol of that level that encodes exactly that data, with the module size that was selected, and printing yields the symbol last stored, unchanged and as often as it is asked for. Data that does not fit leaves the previously stored symbol in place, and printing without any stored symbol reports an error.",
 ["inputs","histories"],"for every data string, model, error correction level and module size, and every sequence of settings, stores and prints",
 "Data lengths near the capacity of each version and level decide whether a symbol is produced; the tests store one short text.",
 [PP+"subcommands/gs_code2d/qr_store.rs",PP+"subcommands/gs_code2d/qr_print.rs"],
 [("version selection and encoding",PP+"subcommands/gs_code2d/qr_store.rs"),("stored symbol is printed",PP+"subcommands/gs_code2d/qr_print.rs")],["Context::code2d and the printed graphic"])
p("C28","Thermal files mean what their format says",
 "In a thermal file lines that start with the comment mark and blank lines produce nothing; a constant name, a decimal number up to 255 and a 0x hex number each produce that one byte; a quoted string produces its bytes with escaped quotes and backslashes resolved; any other word produces its own bytes, except that a malformed 0x word produces nothing. Tokens are separated by white space, strings may touch their neighbours and may contain white space and any other text, and no input of any kind makes the parser panic.",
 ["inputs"],"for every text",
 "All strings, in particular unbalanced quotes, escapes, multi byte characters and numbers out of range; the tests parse three snippets.",
 [PP+"thermal_file.rs"],
 [("tokenizer",PP+"thermal_file.rs parse_tokens"),("token meaning",PP+"thermal_file.rs parse_str")],["parse_str"])
p("C29","Writing commands as a thermal file and reading it back is lossless",
 "For every byte stream, writing its parsed commands in the thermal file format and reading that text back gives exactly the original bytes. This includes text in any encoding, quotes, backslashes, control characters, binary graphics data, unknown commands and truncated commands.",
 ["inputs"],"for every byte stream",
 "All byte streams; the tests convert a few sample files and compare with stored text.",
 [PP+"thermal_file.rs",PP+"parser.rs"],
 [("cmds_to_thermal and its escaping",PP+"thermal_file.rs"),("parse_str",PP+"thermal_file.rs")],["cmds_to_thermal, parse_str"])
p("C30","HTML output shows the printed text and never executes it",
 "Text printed in standard mode appears in the HTML output exactly once and only as text: no printed character can open a tag, close an attribute or act as a template placeholder. The output is produced for every input without panicking and contains the text in print order.",
 ["inputs"],"for every printed text and every byte stream",
 "An injection needs particular characters; the tests print none of them.",
 [RR+"html_renderer/mod.rs",RR+"html_renderer/thermal_html.rs"],
 [("escaping",RR+"html_renderer/thermal_html.rs escape_html"),("template substitution order",RR+"html_renderer/mod.rs end_render")],["ReceiptHtml::content"])
p("C31","Missing or malformed parameters never panic",
 "For every byte stream, parsing it, applying the effect of each command, decoding its text and graphics and executing its device commands finishes without panicking, no matter how commands are truncated, which parameter values they have, in which order they come or what state the printer is in.",
 ["inputs","histories"],"for every byte stream, hence every command with every number of missing parameters in every reachable state",
 "Truncations and extreme parameters of some hundred commands; the tests feed well-formed input only.",
 [PP+"commands/",PP+"subcommands/",PP+"context.rs",PP+"graphics.rs"],
 [("defaults for missing parameters","apply_context, get_graphics, get_device_command of every handler"),("length checks before slicing","gs_graphics handlers")],["the whole pipeline"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
ids=[d["id"] for d in P]; print(len(ids))
for d in P:
    n=d["statement"].count(". ")+1
    if n>3: print(d["id"],n)
