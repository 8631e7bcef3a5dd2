use crate::check::*;
use crate::corpus;
use crate::run::*;

#[cfg(feature = "models")]
pub mod hand;
pub mod hist;
pub mod keys;
pub mod ladder;
pub mod layers;
#[cfg(feature = "models")]
pub mod meta;
#[cfg(feature = "models")]
pub mod model;
#[cfg(feature = "models")]
pub mod repeat;
#[cfg(feature = "vello")]
pub mod scene;
pub mod shapes;
pub mod sweep;
pub mod text;
pub mod time;

const MODEL: &str = "Every case is one document (or a model value) of a bounded space that is enumerated completely; the executable reference model (spec.rs) is stepped through it and the real renderer is run on the same document and frame, and the two sink-call sequences are compared call by call. States are distinct (document, frame, placement, opacity) points, transitions the sink calls matched, traces the model traces replayed against the implementation.";

const TEXT: &str = "Every case is one input text or JSON value of a bounded space (grammar-generated documents, every single-site edit of them, prefixes, spellings) that is enumerated completely and handed to the real entry points; the grammar (grammar.rs) is the reference. States are distinct inputs, transitions entry-point calls or sink calls compared, traces inputs decided.";
const SAFE: &str = "Every case is one document of a bounded space of edits and reference graphs, enumerated completely; each one that parses is rendered by the real renderer at every frame of the set and the sink-call sequence is run through the bracket automaton. States are distinct (document, frame) pairs, transitions sink calls, traces renders.";

const HIST: &str = "Every case is a family of call histories (renders at several frames and placements, renders abandoned at a chosen sink call, compositions replaced or edited in place, parses) over a fixed alphabet, enumerated completely up to the stated length and executed on one real renderer; every completed call is compared with the result of a fresh renderer, which is itself compared with the reference model. States are distinct histories, transitions sink calls, traces histories replayed.";
const SCHED: &str = "Every case is a set of schedules: the real renderers run on operating-system threads that hand over control at every sink call under a controlled scheduler, and all schedules within the stated bound on switches are enumerated; nestings run renderers inside the sink callbacks of others at every call index. States are distinct schedules or nestings, transitions scheduling steps or sink calls, traces executions whose outputs were compared with the renderer running alone.";
const TIME: &str = "Every case is one document of a bounded space and one edit of its times or keyframes whose effect on playback is known (moved, stretched, keyframed without a change); the documents and edits are enumerated completely, the real renderer plays both documents at corresponding frames and the call sequences are compared. States are distinct (document, edit, frame) points, transitions sink calls, traces renders.";
const PLACE: &str = "Every case is one document and frame rendered by the real renderer under every placement and opacity of the set; the call sequence is compared with the base render mapped by the rule. States are distinct (document, frame, placement, opacity) points, transitions sink calls, traces renders.";

#[cfg(feature = "models")]
const META: &str = "Every case is a set of documents of a bounded space, enumerated completely and parsed by the real parser; every field of the resulting public model named in the property is compared with the document. States are distinct documents, transitions model elements compared, traces parses.";

#[cfg(feature = "models")]
const INTERCHANGE: &str = "Every case is one composition of the public model, obtained from a document of the corpus or built directly, with one set of its elements exchanged between fixed and animated representation; the sets are enumerated completely within the stated bounds, the real renderer runs on both compositions and the call sequences (or the values the model reports) are compared. States are distinct (composition, exchange, frame) points, transitions sink calls or values compared, traces renders.";

#[cfg(feature = "models")]
const HAND: &str = "Every case is one edit (or pair of edits) of a composition through the public model: a number, a list or a reference of any element replaced, enumerated completely; the real renderer draws the result and the call sequence is run through the bracket automaton. States are distinct (composition, edit, frame) points, transitions sink calls, traces renders.";

#[cfg(feature = "vello")]
const SCENE: &str = "Every case is a set of documents, frames, placements and opacities of a bounded space, enumerated completely; the real renderer fills a vello scene (a new one, and existing ones in three states), and the sink calls recorded from it, issued through vello's own interface, must give the same encoding stream by stream. States are distinct (document, frame, placement, opacity) points, transitions encoded tags compared, traces renders.";

pub fn find(id: &str) -> (Prop, &'static str) {
    match id {
        "ALL" => (corpus_conform, "corpus"),
        "C01" => (text::c01, TEXT),
        "C02" => (text::c02, SAFE),
        "C03" => (hist::c03, HIST),
        "C04" => (hist::c04, SCHED),
        "C05" => (hist::c05, PLACE),
        "C06" => (text::c06, TEXT),
        "C07" => (text::c07, TEXT),
        "C08" => (text::c08, TEXT),
        "C25" => (text::c25, TEXT),
        "C09" => (layers::c09, MODEL),
        "C10" => (layers::c10, MODEL),
        "C11" => (layers::c11, MODEL),
        "C12" => (layers::c12, MODEL),
        "C13" => (layers::c13, MODEL),
        "C14" => (layers::c14, MODEL),
        "C15" => (keys::c15, MODEL),
        "C16" => (keys::c16, MODEL),
        "C17" => (layers::c17, MODEL),
        "C18" => (shapes::c18, MODEL),
        "C19" => (shapes::c19, MODEL),
        "C20" => (shapes::c20, MODEL),
        "C21" => (shapes::c21, MODEL),
        #[cfg(feature = "models")]
        "C22" => (repeat::c22, MODEL),
        "C29" => (time::c29, TIME),
        "C30" => (time::c30, TIME),
        "C24" => (layers::c24, MODEL),
        #[cfg(feature = "models")]
        "C26" => (meta::c26, META),
        #[cfg(feature = "models")]
        "C28" => (hand::c28, HAND),
        #[cfg(feature = "models")]
        "C27" => (model::c27, INTERCHANGE),
        #[cfg(feature = "vello")]
        "C23" => (scene::c23, SCENE),
        _ => panic!("unknown property {id}"),
    }
}

pub fn corpus_conform(x: &mut X) {
    x.family("corpus");
    for (name, d) in corpus::docs() {
        for f in corpus::frames() {
            x.case(|k| conform(k, &d, &[f]).map_err(|mut e| { e.msg = format!("[{name}] {}", e.msg); e }));
        }
    }
    x.family("assets");
    for (name, d) in corpus::assets() {
        for f in corpus::frames() {
            x.case(|k| conform(k, &d, &[f]).map_err(|mut e| { e.msg = format!("[{name}] {}", e.msg); e }));
        }
    }
}
