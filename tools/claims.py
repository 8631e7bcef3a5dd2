ENUM = "bounded-exhaustive enumeration of documents and document edits, each executed on the real parser and renderer"
TXT = ("Exhaustive over the documents, edits and frames listed in DESIGN.md; nothing is sampled. Trusts the format grammar "
       "(grammar.rs), serde_json's Value parser and process-level observation of crashes, hangs and memory.")
for i in 'C01 C02 C06 C07 C08 C25'.split():
    C[i] = (ENUM, TXT)

HISTE = "exhaustive exploration of bounded call histories (including renders abandoned at every sink call) of the real renderer, checked against fresh renderers and the reference model"
SCHE = "stateless exploration of all bounded interleavings of real renderers under a controlled scheduler that switches at sink calls, and of all bounded nestings"
PLACEE = "bounded-exhaustive enumeration of (document, frame, placement, opacity) states, each executed on the real renderer and compared with the mapped base execution"
MOD = "bounded-exhaustive enumeration of documents, each imported by the real code and compared element by element with an executable model of the import"
SCE = "bounded-exhaustive enumeration of (document, frame, placement, prior scene state), each executed on the real back end and replayed call by call through vello's own API"
BND = "Exhaustive within the bounds listed in DESIGN.md; nothing is sampled. "
C['C03'] = (HISTE, BND + "Trusts catch_unwind to stand for a panicking sink and Debug output to expose the composition's state.")
C['C04'] = (SCHE, BND + "Switch points are the sink calls and the parse/render boundary: the library hands control to its caller nowhere else and uses no unsafe code, so finer interleavings could only matter through shared locks or atomics inside one step.")
C['C05'] = (PLACEE, BND + "Trusts kurbo's matrix product and peniko's brush alpha.")
C['C23'] = (SCE, BND + "Trusts vello's scene encoder, whose output streams are compared in full; no GPU is involved.")
C['C26'] = (MOD, BND + "Trusts the reference resolution of parents and mattes (spec.rs), written over the JSON text.")
EXCH = "bounded-exhaustive enumeration of compositions and of exchanges between fixed and animated representation, each executed on the real renderer and compared with the original execution"
HANDE = "bounded-exhaustive enumeration of edits of real compositions through the public model, each executed on the real renderer under a bracket automaton"
TIMEE = "bounded-exhaustive enumeration of documents and of edits of their times and keyframes, each executed on the real renderer and compared frame by frame with the original execution"
C['C27'] = (EXCH, BND + "Trusts the comparison tolerances; elements of assets shown at several frames at once are exchanged only for keyframes that never change.")
C['C28'] = (HANDE, BND + "Trusts process-level observation of crashes, hangs and memory.")
C['C29'] = (TIMEE, BND + "Times are dyadic, so that the maps are exact.")
C['C30'] = (TIMEE, BND + "Trusts the comparison tolerances.")
STEPE = "explicit-state exploration of all bounded action histories of the real object in lockstep with an executable model"
for i, n in [('X01', "Trusts winit's Touch type."), ('X02', "Trusts vello's encoding to expose the drawn transforms."),
             ('X03', "Trusts kurbo's bounding boxes and vello's encoding; reaches the private tracker through accessors appended to a copy of the source (apps/probes).")]:
    C[i] = (STEPE, BND + n)
C['X04'] = ("bounded-exhaustive fault injection: every server behaviour and initial directory of the space played against the real downloader over a loopback connection",
            BND + "Trusts ureq's HTTP client (the version in the lock file) and the file system; downloads of known size are reached through an accessor appended to a copy of the source (apps/probes).")
C['X05'] = ("bounded-exhaustive enumeration of directory contents and path lists, each executed on the real program in a scratch directory and compared with an executable model",
            BND + "Trusts the file system.")
