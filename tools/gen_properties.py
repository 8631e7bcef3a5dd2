#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the statements have one source)."""
import json, os
R='src/runtime/render.rs'; CV='src/import/converters.rs'; BU='src/import/builders.rs'
AN='src/runtime/model/animated.rs'; VA='src/runtime/model/value.rs'; SP='src/runtime/model/spline.rs'
FX='src/runtime/model/fixed.rs'; MO='src/runtime/model/mod.rs'; RT='src/runtime/mod.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
T="The 16 existing tests deserialize a handful of literal schema objects and check four hidden/matte flag conversions; none of them renders anything."
SINK=["RenderSink calls made by Renderer::append"]
p('C01','Parsing any input returns a value or an error and never crashes',
 "Handing any bytes, text or JSON value (nested no deeper than the JSON parser's own recursion limit) to any of the library's parsing entry points returns either a value or an error. Parsing never panics, aborts, overflows the stack, asks for memory out of proportion to the input, or fails to return.",
 ['inputs'],"every byte string / JSON value up to the nesting limit, every entry point of the composition and of the schema",
 T+" Malformed, truncated, partial and unusual-but-legal documents are never parsed.",
 ['src/schema',CV,BU,RT,'src/error.rs'],
 [('untagged/flattened serde schema','src/schema'),('fallible conversion of schema objects into the runtime model',CV+' conv_animation')],["return value of the parsing functions"])
p('C02','Rendering never panics and its sink calls are balanced',
 "Rendering any successfully parsed composition at any frame number (negative, fractional, huge, infinite or NaN) completes without panicking or unbounded recursion, even when compositions or mattes refer to themselves or to missing things. The sink always sees a bracketed call sequence: one outermost clip of the composition's size, every pushed layer popped exactly once, every layer-group begin matched by an end, and pushes and groups properly nested.",
 ['inputs','configurations'],"every parsed document (masks, mattes, precomps, missing and cyclic references) and every f64 frame",
 T+" Balance depends on the combination of masks, mattes, precomps and visibility at each frame.",
 [R],[('pop count derived from masks and matte',R+' render_layer'),('parent cycle cut-off',R+' compute_transform')],SINK)
p('C03','Rendering is a pure function; renderer reuse leaves no trace',
 "What a renderer sends to the sink depends only on the composition, frame, placement transform and opacity passed to that call: whatever the same renderer rendered before (other compositions, other frames, or renders abandoned half-way because the sink panicked), the calls are identical to those of a fresh renderer. Likewise the composition obtained from a document does not depend on what was parsed or rendered before, and rendering leaves the composition unchanged.",
 ['histories','fault_sequences'],"every history of parse/render/aborted-render operations preceding a render on the same renderer",
 T+" History dependence needs sequences of renders on one renderer; no test performs even one.",
 [R],[('scratch buffers cleared between layers and appends',R+' Batch::clear, Renderer::append')],SINK,
 [('batch','geometry/draw scratch of the current shape layer',R),('mask_elements','scratch path of the current mask',R)])
p('C04','Renderers are independent under any interleaving or nesting',
 "Two or more renderers working at the same time, on the same or on different compositions, interleaved in any order at their sink calls on different threads or nested inside one another's sink callbacks, each produce exactly the call sequence they produce when run alone.",
 ['schedules'],"every interleaving (at sink-call granularity) of concurrent renders, and every nesting point",
 T+" Shared or static scratch state only shows when two renders overlap.",
 [R,'src/import/defaults.rs'],[('all scratch state owned by the renderer value',R+' Renderer'),('immutable lazily initialised defaults','src/import/defaults.rs')],SINK)
p('C05','Placement transform and opacity compose uniformly with the output',
 "For compositions whose opacities stay within 0 and 100%, rendering with an invertible placement transform T and opacity a in [0,1] makes exactly the calls of the render with the identity and opacity 1, with every transform passed to the sink premultiplied by T and the alpha of every painted brush multiplied by a. Paths, brush geometry, stroke parameters, blend modes, layer alphas, names and call order do not change.",
 ['inputs','configurations'],"every composition, frame, invertible T and a in [0,1]",
 T,[R],[('transform and alpha threaded through layers, mattes, masks, groups and draws',R+' render_layer, render_shapes')],SINK)
p('C06','All parsing entry points agree on every document',
 "For any document without duplicate keys whose numbers lie within the range of a double, parsing it from bytes, from a string or from a JSON value gives the same outcome: all fail, or all succeed with compositions that have the same metadata, assets and layers and render identically at every frame.",
 ['inputs'],"every document, valid or not",T,[RT,'src/schema/animation/animation.rs'],
 [('one schema type and one converter behind every entry point',RT+' Composition::from_slice/from_json/from_str')],["return value of the parsing functions"]+SINK)
p('C07','The document model survives serialization',
 "Writing a parsed document back to JSON and parsing it again gives an equal document, and the composition built from the rewritten text renders identically to the original at every frame. No layer, shape, asset, keyframe, mask or property that the document model represents is lost, duplicated or changed on the way (numbers to within floating-point rounding).",
 ['inputs'],"every document the schema accepts (all layer, shape, asset, keyframe and property variants)",
 "Tests serialize four literal values and never compare the result with anything.",
 ['src/schema'],[('serde derive attributes with matching rename/skip/default','src/schema'),('Display for Animation','src/schema/animation/animation.rs')],["Display/serde of the schema document"]+SINK)
p('C08','Unknown fields and key order do not affect meaning',
 "Adding keys the format does not define to any object of a valid document, or reordering the keys of any object, never makes it fail to parse and never changes the parsed document or anything rendered from it. (The free-form `metadata` and metadata keywords are data: their content is kept, not ignored.)",
 ['inputs'],"every object of every valid document, every unknown key, every key order",T,['src/schema'],
 [('serde structs without deny_unknown_fields; buffered untagged/flattened parsing','src/schema')],["return value of the parsing functions"]+SINK)
p('C09','A layer is shown exactly while in-point <= frame < out-point',
 "A layer contributes to the output at a frame exactly when its in-point is <= the frame and the frame is < its out-point, measured on the timeline of the composition that contains it (the rendered frame for top-level layers, the instance's local time for layers of a precomposition, fractional and negative values included). Outside that window it makes no sink call at all, but it still acts as transform parent of its children; an out-of-window matte source contributes nothing.",
 ['inputs'],"every in/out window and every frame around its bounds, for every layer kind and nesting",T,[R,BU],
 [('half-open containment test',R+' render_layer'),('in/out point import',BU)],SINK)
p('C10','Parenting composes transforms along the ancestor chain',
 "A layer is placed by (placement or instance transform) x (outermost ancestor) x ... x (parent) x (own transform), each evaluated at the current frame, where parents are looked up by layer index within the same layer list regardless of listing order, gaps in the numbering or the parent's kind, visibility window or hidden flag; a parent index that no layer has is ignored, cyclic parents terminate, and a parent's opacity, masks and content do not apply to its children. A layer's transform maps its anchor to its position and applies scale (100% when omitted), then skew, then rotation, with omitted members neutral and split x/y positions equivalent to the combined form.",
 ['inputs'],"every parent forest over a layer list, every listing order and numbering, every transform",T,[R,CV,AN],
 [('parent chain walk',R+' compute_transform'),('index map',CV+' process_layers'),('matrix product',AN+' Transform::evaluate')],SINK)
p('C11','Paint order and layer-group callbacks mirror the document',
 "Within a layer list the visible layers are painted from last to first, each enclosed by one begin/end pair that carries the layer's name (empty if unnamed) and its position in the layer list that contains it, with precomposition content and matte sources nested inside the pair of the layer that uses them; matte-source layers are not painted on their own. Within a shape layer the fills and strokes are painted from last-listed to first-listed across all nested groups, each over its geometry in listed order.",
 ['inputs'],"every layer list and shape tree",T,[R],[('reverse iteration',R+' append, render_layer, Batch::render'),('begin/end layer group',R+' render_layer')],SINK)
p('C12','Track mattes pair each layer with the right source and mode',
 "A layer with a matte mode is composited by an isolating normal layer, then its matte source rendered with its own transform and opacity, then a second layer that keeps source content inside the matte for alpha/luma modes or outside it for the inverted modes, both covering the whole composition, then the layer's own content, then both are popped. The source is the explicitly referenced layer when a matte reference is given and otherwise the last matte-source layer listed before it with no ordinary matted layer in between, within the same layer list; without any source the layer is painted unmatted.",
 ['inputs'],"every arrangement of matte sources, matted layers, modes and explicit references in a layer list",T,[CV,BU,R],
 [('matte pairing',CV+' process_layers'),('mode mapping',BU),('two layer pushes around the matte',R+' render_layer')],SINK)
p('C13','Masks clip the layer content in the layer coordinate space',
 "Every mask of a layer that has a path becomes one clip, in listed order, with the mask's path evaluated at the layer's frame and the layer's full transform, enclosing all of that layer's content (including nested precomposition content) and nothing else; masks without a path add no clip.",
 ['inputs'],"every list of static and animated masks on every layer kind, with parents, mattes and nesting",T,[R,BU],
 [('clip per mask',R+' render_layer'),('mask import',BU)],SINK)
p('C14','Precomposition instances replay their asset with mapped time',
 "An instance layer paints the referenced asset's layers at local time (frame - start time) / time stretch (stretch 1 and start 0 when omitted), under the instance's transform and opacity, at any nesting depth and any number of times, with parent, matte and index references resolved inside the asset alone. An instance of a missing asset paints nothing, and an unscaled, unshifted instance paints exactly what its layers would paint if listed inline.",
 ['inputs'],"every asset graph, instance timing and nesting depth",T,[R,CV,BU],
 [('frame mapping',R+' render_layer'),('asset map',CV+' conv_animation')],SINK)
p('C15','Keyframed values follow the keyframe rules at every frame',
 "An animated property with increasing keyframe times takes the first value before the first keyframe and the last value at and after the last one, equals each keyframe's value exactly at its time, keeps the left value for the whole span after a hold keyframe, and otherwise moves from the left to the right value along the span's cubic easing curve (out and in handles of the left keyframe, linear when absent, with the vertical component free to overshoot). This holds alike for scalars, points, sizes, scales, colours, gradient stops (offset and colour), and path vertices with their tangents, for any number of keyframes including one.",
 ['inputs'],"every keyframe list (1..n keyframes, easing handles in [0,1] on the time axis, hold flags) and every frame",T,[VA,AN,CV],
 [('span search and weight',VA+' Time::frames_and_weight'),('easing solve',VA+' Tween for f64'),('keyframe import',CV+' conv_keyframes, conv_scalar, conv_gradient_colors, conv_shape_geometry')],SINK)
p('C16','Every animatable property is animated independently of the others',
 "At any frame, a document renders exactly as the document obtained by replacing any subset of its animated properties with static properties holding their value at that frame, for every animatable property of layers, masks, groups, shapes, paints and trims.",
 ['inputs','configurations'],"every subset of animated slots of every element, every frame",T,[AN,MO,CV],
 [('is_fixed short-cuts that pre-evaluate constant elements',AN+' into_model'),('per-slot conversion',CV)],SINK)
p('C17','Opacity multiplies along the containment chain',
 "The alpha of everything painted is the product of the render opacity, the opacity of every enclosing precomposition instance, of the layer, of every enclosing shape group and of the fill or stroke itself (solid or gradient), each evaluated at its own local frame, 100% when omitted, and of the brush's own alpha, limited to 0..1. Opacity never comes from parent layers, sibling groups or the matted layer (for its matte source), and never removes or adds calls.",
 ['inputs'],"every nesting of instances, layers, groups and styles with every opacity in [0,100]",T,[R,CV],
 [('alpha threading',R+' render_layer, render_shapes, DrawData::new'),('opacity import',CV)],SINK)
p('C18','Styles paint exactly the shapes in their scope',
 "In a shape tree a fill or stroke paints exactly the geometry listed before it in its own group, including geometry inside nested groups, and nothing listed after it or outside its group; geometry is placed by the transforms of all its enclosing groups and painted once per style. Consecutive geometry of one group with the same transform and no style in between forms one path, in listed order, and an empty or transform-less group changes nothing.",
 ['inputs'],"every shape tree of geometry, styles and groups up to a bound",T,[R,CV],
 [('geometry stack with a group-local start',R+' render_shapes, Batch::push_geometry/push_draw'),('group import',CV+' conv_shape')],SINK)
p('C19','Primitive shapes have the geometry their parameters describe',
 "Rectangles are centred on their position with the given size and corner radius, ellipses are centred with the given diameters, stars and polygons have their vertices on the given radii at equal angles starting at the given rotation from straight up with roundness-scaled tangents, and paths run through their vertices using each vertex's relative in/out tangents, straight where both are zero and closed when flagged. Animated parameters give the same geometry as static ones with the same values.",
 ['inputs'],"every parameter combination of every primitive",T,[AN,SP,CV],
 [('shape evaluation',AN+' Rect/Ellipse/Star/Spline::evaluate'),('spline to path',SP+' to_path')],SINK)
p('C20','Trim keeps exactly the requested arc-length range',
 "A trim reduces each geometry in its scope (listed before it in the same group) to the part of its outline between start and end percent of its arc length, in either order, rotated by the offset with wrap-around at the path's end, whatever whole turns the offset contains; a full range changes nothing and an empty range leaves nothing. Geometry outside the scope, later geometry, and gaps between subpaths are unaffected: no line is drawn that was not on the original outline.",
 ['inputs'],"every path, start, end and offset, and every placement of trims in a shape tree",T,[R,FX],
 [('range normalization',FX+' Trim::normalized'),('arc-length cutting and buffer rebuild',R+' Batch::apply_trim')],SINK)
p('C21','Fills, strokes and gradients reach the sink with document values',
 "Fills reach the sink as fills and strokes as strokes with the document's colour, width, cap, join and miter limit (documented defaults when omitted); gradients are linear from start to end point, or radial around the start point with the start-end distance as radius, with exactly the listed colour stops in order. Opacity stops that all have one value give every colour stop that alpha.",
 ['inputs'],"every combination of paint type and attributes, static or animated",T,[CV,AN],
 [('paint import',CV+' conv_draw, conv_gradient_colors, conv_stops'),('paint evaluation',AN+' Gradient/Stroke::evaluate')],SINK)
p('C22','Repeaters copy the preceding shapes with progressive placement',
 "In a composition built through the public model, a repeater paints, for each copy, the geometry and styles listed before it in its group, with copy i placed by the repeater transform raised to (offset + i) about the anchor and its opacity interpolated from start towards end by i/copies; copies with no opacity are not painted. Each copy's style paints that copy's geometry only, and shapes after the repeater or outside its group are unaffected.",
 ['inputs'],"every repeater parameter set, static or animated, and every placement in a shape tree",T,[R,FX,AN],
 [('geometry and draw replication',R+' Batch::repeat'),('copy transform',FX+' Repeater::transform')],SINK)
p('C23','The vello back end encodes exactly the sink call sequence',
 "The vello scene produced for a composition, frame, transform and opacity equals the scene obtained by issuing the same fills, strokes, blend layers, clips and pops, in the same order, through vello's own API, both when a new scene is returned and when rendering is appended to an existing scene.",
 ['inputs'],"every composition and frame",T,['src/runtime/vello.rs'],[('RenderSink for vello::Scene','src/runtime/vello.rs')],["vello::Scene encoding"])
p('C24','Hidden layers paint nothing and change nothing else',
 "A layer marked hidden paints no content and is never treated as a matte source, yet keeps its place in the layer list, its callbacks and its role as transform parent; every other layer renders exactly as if the hidden layer had been an empty layer with the same transform and index.",
 ['inputs'],"every layer kind, position and role (parent, matte source, matted, masked, instance) of hidden layers",
 "Four unit tests check two converted fields on one shape layer; the effect on rendering and other layer kinds is not tested.",[CV,R],
 [('hidden handling',CV+' conv_layer, is_layer_hidden')],SINK)
p('C25','Unsupported or malformed documents are reported, not guessed',
 "Documents with a missing required field, a wrongly typed field, an unsupported or missing layer type, an unsupported asset kind, or path keyframes without the required start value are rejected with an error; the error for a bad asset names the asset's id and for an unknown layer type names that type. A valid document is never rejected.",
 ['inputs'],"every required field and discriminator of every object kind, removed or given a wrong type",T,['src/schema','src/error.rs'],
 [('custom deserializers','src/schema/layers/mod.rs, src/schema/assets/mod.rs, src/schema/animated_properties/shape_property.rs')],["Err value and its Display text"])
p('C26','Imported compositions report the document metadata faithfully',
 "The composition reports the document's frame range, frame rate, width and height; one asset per precomposition under its id; and one layer per document layer in order with its name, in/out points, start time, stretch, parent position, matte role, opacity, masks (one per mask with a path, with its opacity), blend mode and (for instances) size, referenced asset and time remap.",
 ['inputs'],"every value of these fields in every document",T,[CV,BU,RT],
 [('conversion',CV+' conv_animation, process_layers'),('layer setup',BU)],["public fields of Composition and model::Layer"])
p('C27','Fixed and animated representations of a value are interchangeable',
 "In the public model an element that calls itself fixed has one value at all frames, and an element or value with keyframes (any member of it) does not call itself fixed. Replacing any elements of a composition by the fixed representation of the value they report at frame f leaves what is rendered at frame f unchanged; replacing fixed ones by keyframes that never change the value leaves every frame unchanged. Converting an animated element to its model representation preserves its value at every frame, borrowed and owned results agree, evaluation appends to the given path, and a brush evaluated with an opacity is the brush with its alpha multiplied, in every representation.",
 ['inputs'],"every composition, every set of exchanged elements and every frame",T,['src/runtime/model'],
 [('fixed and animated enums','src/runtime/model/mod.rs'),('is_fixed, evaluate, into_model',AN)],["values reported by the public model; "+SINK[0]])
p('C28','Compositions edited by hand render without crashing',
 "Rendering a composition whose public model was edited in any way (numbers that are not finite or out of range, lists of keyframes, values or points of different lengths, unordered or empty, parent, matte and asset references to anything, layers and shapes removed, repeated or nested) at any frame returns without panicking and issues a balanced call sequence that starts with the clip of the composition. (Numbers of repeater copies ask for that much work; outlines start with a move.)",
 ['inputs'],"every edit of every part of the model, at every frame including ones that are no numbers",T,[R,'src/runtime/model'],
 [('renderer',R),('evaluation with missing keyframes','src/runtime/model/value.rs, '+AN)],SINK)
p('C29','Moving or stretching time moves or stretches playback',
 "Shifting all times of the top-level layers (in and out points, start times, keyframes) by d gives a document that shows at frame f + d what the original shows at frame f; multiplying all times of all layers by s, or those of the top-level layers and the stretch of their instances, gives one that shows at s f what the original shows at f. Shifting or stretching an asset's own times and the start or stretch of its instances inversely changes nothing.",
 ['inputs'],"every document, shift, factor and frame",T,[R,'src/runtime/model/value.rs',CV],
 [('instance time mapping',R+' render_layer'),('keyframe weights','src/runtime/model/value.rs Time::frames_and_weight')],SINK)
p('C30','Keyframes that never change a value equal the static value',
 "Replacing static values of a document (any set of them) by keyframes that all hold the same value, whatever their number, times, easing or hold flags, leaves every frame unchanged.",
 ['inputs'],"every set of properties, every form of keyframes and every frame",T,[CV,AN],
 [('keyframe import',CV),('static and keyframed representations',AN)],SINK)
p('X01','Touch gestures report only real changes between frames',
 "For any sequence of touch events and frame ends, the viewer's multi-touch tracker reports the number of fingers down, the centroid, and translation, rotation and zoom relative to the previous frame's positions of the same fingers; rotation is that of the finger with the lowest id around the centroid (up to a full turn), zoom that of the mean distance from it, and both stay finite when fingers coincide; in the frame where tracked fingers were added or lifted and on frames without movement it reports no change (zero translation and rotation, zoom 1), and it reports no gesture when no finger is down. Events of fingers that are not tracked have no effect.",
 ['histories'],"every sequence of start/move/end/cancel events and frame ends",T,['examples/with_winit/src/multi_touch.rs'],
 [('gesture state with previous/current snapshots','examples/with_winit/src/multi_touch.rs TouchState')],["TouchState::info"])
p('X02','Frame statistics cover exactly the last hundred samples',
 "After any sequence of recorded frame times and min/max resets, the viewer's statistics report the mean (and its reciprocal as frame rate) of exactly the most recent 100 samples (all of them if fewer), list those samples oldest first, and report the minimum and maximum recorded since the last reset. The overlay can be drawn after any such sequence, without panicking and with finite coordinates.",
 ['histories'],"every sequence of samples and resets, including far beyond the window",T,['examples/with_winit/src/stats.rs'],
 [('sliding window sum','examples/with_winit/src/stats.rs Stats')],["Stats::snapshot, Stats::samples"])
p('X03','Layer picking reports the top-most layer under the cursor',
 "For any sequence of layer-group and draw callbacks the picking example reports, for each outermost interactive layer that drew something, the bounding box of everything drawn inside it (nested layers included, other layers excluded), and picking a point returns the last-painted reported layer whose box contains the point, or none; everything drawn is forwarded unchanged to the scene. A cursor position is mapped to the scene by the inverse of how the viewer fits and shows it.",
 ['histories'],"every bracketed callback sequence and every cursor position",T,['examples/scenes/src/picking.rs'],
 [('tracker state machine','examples/scenes/src/picking.rs LayerBoundsTracker'),('pick','examples/scenes/src/picking.rs pick_layer')],["collected layer hits, pick_layer, cursor_to_scene"])
p('X04','Downloads never overwrite files and never exceed the size limit',
 "For any server behaviour (short, exact, oversized or failing bodies, wrong announced sizes) a download either succeeds with a complete file holding exactly the served bytes, within the size limit and of the expected size when one is known, or reports an error; an existing file is never modified and a failed download leaves no file behind. A download specification `name@url` uses that name, and a bare URL uses its last path segment without the .json suffix.",
 ['fault_sequences','inputs'],"every response size around the limits, every failure point, every pre-existing target",T,['examples/scenes/src/download.rs'],
 [('create-new open, bounded copy and size checks','examples/scenes/src/download.rs LottieDownload::fetch'),('spec parsing','examples/scenes/src/download.rs parse_download')],["files in the download directory, returned error"])
p('X05','Scene selection lists every animation file in a stable order',
 "Given any list of files and directories the viewer's scene list contains the given files in order and, for each directory, exactly its .json files (not subdirectories) sorted by case-insensitive name, each labelled with its file name without extension and playing that file.",
 ['inputs'],"every list of files and directory contents",T,['examples/scenes/src/lottie.rs'],
 [('directory scan and sort','examples/scenes/src/lottie.rs scene_from_files_inner')],["SceneSet names"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
