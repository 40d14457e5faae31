import json,re,subprocess
"""Editing aid: rewrites the two tables of DESIGN.md."""
p='/verif/DESIGN.md'; s=open(p).read()
props=open('/verif/harness/src/props.rs').read()
q={m.group(1):int(m.group(2).replace('_','')) for m in re.finditer(r'id: "(\w+)",.*?quick: ([\d_]+),',props,re.S)}
rows=[
("D01","model document, random spelling","the model tree",["D01"]),
("D02","model document","round-trip; own serialiser for every subtree",["D02"]),
("D03","model document, every node","own indenting serialiser; round-trip up to edge white space",["D03"]),
("D04","cuts, a catalogue of fatal damages, mutations, token soup, one piece of markup up to 100 000 times over (on a 2 MB stack; a million levels in the fixed cases)","must be rejected / must terminate without panic; what is accepted must pass an independent recogniser of the markup structure (`doc.rs structured`)",["D04"]),
("D05","as D01, through `SaxDecoder`","token list produced while spelling",["D05"]),
("D06","model document, all nodes, all pairs","the model tree",["D06"]),
("D07","nested namespace declarations, then edits","in-scope namespaces of the model",["D07"]),
("D08","histories of ≤14 edits on several trees, handles kept (attributes too), source documents dropped, operations that cannot apply (an ancestor under its descendant, a child for a text)","model trees after each step",["D08"]),
("D09","histories of ≤20 attribute operations, on nodes that have none too","insertion-ordered map",["D09"]),
("D10","≤9 edits (set and delete attribute, move between trees, delete …) interleaved with queries","reference evaluator over the edited model",["D10"]),
("D11","runs of the program on well-formed, cut off, mutated, non-UTF-8 and missing files","own indenting serialiser; the library in the same process; exit status and streams",["D11"]),
("D12","≤14 queries, edits, parses, handles given up in any order, on 1–2 documents","a counting allocator: nothing more is allocated after a second equal run",["D12"]),
("X01","(node, axis, node test)","axes by definition over the model",["X01"]),
("X02","nested predicates on steps, paths, sequences; position()/last() before and after constructs with a focus of their own, empty ones too","reference evaluator",["X02"]),
("X03","paths, set operators, node comparisons, `!`","reference evaluator",["X03"]),
("X04","any expression","get_nodeset, get_first_node, each_node against the node items",["X04"]),
("X05–X07","operators over special operands","reference evaluator",["X05","X06","X07"]),
("X08","binding constructs, shadowing, closures, unbound names","reference evaluator (lexical scopes)",["X08"]),
("X09–X11","sequence functions (up to 300 items), string functions over any character of Unicode, numeric functions with decimals beyond 64 bits","reference functions",["X09","X10","X11"]),
("X12","cast, castable, instance of","reference casts and type matching",["X12"]),
("X13","maps and arrays (up to 300 entries)","ordered maps / vectors",["X13"]),
("X14","function items in all roles","reference evaluator",["X14"]),
("X15","any expression in 4 spellings, names renamed to random ones","reference evaluator, and equality of the spellings",["X15"]),
("X16","token soup, mutations, 60 kinds of definite syntax error, characters that are no name characters, 30 kinds of expressions of up to 200 levels, whole and with one level broken","no panic/hang; methods agree; definite errors rejected; what is accepted must be in the XPath 3.1 grammar by an independent recogniser (`xgram.rs`, itself checked in X15 on every generated expression)",["X16"]),
("X17","any value","own rendering; len/get_item/as_nodeptr",["X17"]),
("X18","node functions, languages, namespaces","reference functions",["X18"]),
("X19","series of queries in any order, nearly equal queries after each other, equal documents","equality of results; document unchanged",["X19"]),
("X20","function items × function types near their type","own subtype relation and signatures",["X20"]),
("X21","inline functions with declared types × values","function conversion rules",["X21"]),
("X22","all built-in functions × 5 ways of calling × any value","reference functions",["X22"]),
("X23","expressions with one fault of a known kind, evaluated or not; broken and mutated texts","the kind the fault was generated with; the grammar",["X23"]),
("X24","every operator and construct × operands of any kind, nested","reference evaluator",["X24"]),
]
def f(n): return f"{n:,}".replace(","," ")
t="| id | generated | oracle | quick cases |\n|----|-----------|--------|------------|\n"
for a,b,c,l in rows:
    v=[q[x] for x in l]
    t+=f"| {a} | {b} | {c} | {f(v[0]) if len(set(v))==1 else ' / '.join(f(x) for x in v)} |\n"
i=s.index("| id | generated | oracle"); j=s.index("\nOne case is a whole document")
s=s[:i]+t+s[j:]
# planted
import glob,os
t="| id | caught by | what it breaks | needs |\n|----|-----------|----------------|-------|\n"
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); t+=f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
i=s.index("| id | caught by |"); j=s.index("\n## Limits")
s=s[:i]+t+s[j:]
open(p,'w').write(s)
