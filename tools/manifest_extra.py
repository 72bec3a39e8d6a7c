"""What is claimed besides the checks that replay behaviours of MC."""
T = "TLA+ specification run by TLC; every behaviour replayed into the real code"
EXTRA = {
    "C15": ("model_checking", T, "TLC enumerates Stream.tla exhaustively (every value up to 3 characters of its alphabet, every division into pieces, every length argument of its pool) and simulates longer ones, "
            "checking the laws of the filters on the model; every case is replayed into the real filter functions, with the value written in the given pieces. Longer values and other characters are only sampled."),
    "C16": ("model_checking", T, "TLC enumerates the JSON documents of JsonDoc.tla up to 3 nodes and simulates larger ones, checking on the model that the serialised text reads back and contains no HTML-significant character; every document is "
            "replayed into the real json filters. Trusts serde_json's number formatting outside of the sampled numbers."),
    "C17": ("model_checking", T, "TLC enumerates the sentences of the grammar in Parse.tla (expressions to 5 tokens, patterns to 6, tags to 13, literals to 5 characters; longer ones simulated), every viable sequence of 3 tags followed by any one, and nestings of every construct from 1 to 5000 levels with siblings; "
            "the real parser must give the verdict of the model for each, the same tree in every context, and a well-formed result for every prefix, suffix, deletion and insertion of a sample. Sentences with whitespace other than one or no space between tokens are not generated; chains of 200000 postfix or binary operators overflow the stack (known findings)."),
    "C18": ("model_checking", T, "TLC enumerates every piece of a pool of some ninety valid and invalid pieces inside every construct at every place (top level, block, overriding or dead block, called, imported or idle macro, include, child outside of blocks; thorough: inside every two constructs), "
            "and programs written by the model's author are changed tag by tag; the rules of Valid.tla give the verdict and the real derive macro must agree on every program. Cases the documentation leaves open (e.g. break across a filter block, blocks inside macros) need only not crash. Changed programs are sampled."),
    "C19": ("model_checking", T, "Behaviours of MC (profile C19) with delimiters drawn from pools, replayed into the real code; plus every single delimiter and every triple of openings from the pools of Config.tla, which must be accepted or rejected as the model says. "
            "Programs are sampled, delimiter validity is exhaustive over the pools. Closing delimiters that begin like the continuation of an expression, and equal comment delimiters, are outside."),
    "C20": ("model_checking", T, "TLC enumerates every combination of the option pools of each group of Config.tla (about 8200 configurations), checking the precedence laws on the model; every one is compiled with the real derive macro and rendered. "
            "Combinations across groups are not enumerated; MIME types are checked for the extensions listed in the model."),
    "C21": ("model_checking", T, "Behaviours of Web.tla (MC plus the response a request must get: status, type, body or failure, declared length), replayed through the real actix-web, axum, rocket and warp integrations in process, without a network. "
            "Programs, values and faults are sampled by TLC; the frameworks themselves are trusted."),
    "C22": ("model_checking", T, "Behaviours of Rebuild.tla (a program of MC, then edits of its files with a build after each, and at last a removal), with the model's invariant that what is rendered is made of what is on disk; "
            "replayed with cargo, one crate per program: the files are edited in place, built incrementally, and the program's output is compared with the model's after each build. Programs and edits are sampled by TLC; cargo's and rustc's own dependency tracking is trusted."),
}
NA = []
