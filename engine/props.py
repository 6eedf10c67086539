"""Which analysis groups decide which property, and which rules are its obligations."""

MK = ["mk_or", "mk_and", "mk_concat", "mk_unary", "mk_look", "mk_trie"]
# property -> (groups, rule prefixes)
PROPS = {
    "C01": (["deriv", "map", "wide"], ["deriv", "map"]),
    "C02": (MK, ["mk.flags"]),
    "C03": (MK, ["mk.lang", "mk.panic", "mk.look"]),
    "C04": (["bytes"], ["bytes"]),
    "C05": (["sym", "symmap"], ["sym"]),
    "C06": (["search"], ["search.yes", "search.no", "search.panic"]),
    "C07": (["next", "dfa"], ["next", "dfa.next"]),
    "C08": (["look", "deriv", "dfa", "mk_look"], ["look", "deriv.look", "dfa.length", "mk.look", "mk.lang.lookahead"]),
    "C09": (["comp"], ["comp.map", "comp.inv", "comp.expr", "comp.panic"]),
    "C10": (["dfa", "next", "history"], ["dfa", "next.order", "history"]),
    "C11": (["dfa", "history"], ["history", "dfa.dead", "dfa.new", "dfa.panic", "dfa.state"]),
    "C12": (["hc"], ["hc"]),
    "C13": (["enc"], ["enc"]),
    "C14": (["parse"], ["parse", "class.bytes", "class.panic"]),
    "C15": (["uclass"], ["class"]),
    "C16": (["json"], ["json"]),
    "C17": (["build", "mapast"], ["build.lang", "build.ref", "build.panic", "build.pattern", "build.options", "build.fuel", "mapast"]),
    "C18": (["build", "parse", "uclass"], ["build.accepted", "build.refused", "build.panic", "parse.accepted", "parse.refused", "parse.panic", "class.panic"]),
    "C19": (["contain", "search", "dfa"], ["contain", "search.yes", "search.no", "dfa.new"]),
    "C20": (["rec"], ["rec"]),
    "C21": (["search", "sym", "comp", "build", "contain", "count"] + MK, ["count", "search.fuel", "search.cost", "sym.cost", "mk.cost", "comp.cost", "build.fuel", "contain.fuel"]),
    "C22": (["det"], ["det"]),
    "C23": (["share", "hcclone", "dfaclone"], ["share", "hc", "dfa"]),
    "C24": (["unsafe"], ["unsafe"]),
    "C25": (["export"], ["export", "dfa"]),
    "C26": (["mapast", "map", "symmap"], ["mapast", "map", "sym"]),
    "C28": (["print"], ["print"]),
    "C27": (["dfacost", "memo", "search", "history"], ["dfa.cost", "memo", "history"]),
}

MODULES = ["g_mk", "g_deriv", "g_sym", "g_bytes", "g_search", "g_next", "g_comp", "g_dfa", "g_store", "g_parse", "g_build", "g_json", "g_struct", "g_print"]

TECHNIQUE = {
    "C28": "abstract interpretation of MIR: a contract on the length of the text for every kind of node with unknown children and an unknown limit",
    "C20": "call-graph analysis (strongly connected components of the resolved, monomorphised MIR call graph; ownership cycles of types), abstract interpretation for the one bounded recursion",
    "C22": "interprocedural dataflow: sequences in hash-table order, hash values, clocks, addresses (static, nothing executed)",
    "C23": "type-structure and effect analysis (Send/Sync, shared cells, statics), abstract interpretation of histories on clones",
    "C24": "unsafe-operation audit on MIR: dominating guards, layouts; the number-to-kind conversion evaluated for every number",
}
NOTE = {
    "C28": "Lists of up to 6 children (80 of one kind), runs of bytes up to 300; children contribute one byte or very many; byte sets are representatives (single symbols, gaps, every other symbol) for alphabets of 1 to 256 symbols. What the text says is not judged.",
    "C20": "All local functions and the library functions instantiated for them; calls through function pointers are not followed (there are none). Recursion that counts its depth, prints, or follows a tree of the crate's own is not judged by shape; the prefix-sharing recursion is evaluated on combs of 250 and 280 words.",
    "C22": "Every walk over a hash table is followed forwards through collections, closures and local calls until it is sorted, put in another table, or reaches something order-sensitive. Uses the analysis cannot classify are counted as undecided and not reported.",
    "C23": "All public types and everything they own. Derived clones are field-wise; hand-written clones are evaluated in histories of insertions and transitions that switch between original and clone.",
    "C24": "All statements and calls of all local functions. Trusts rustc's notion of unsafe operations, bytemuck's derive and the dependencies' own unsafe code.",
}
