# property -> (how it is decided and why that reaches what tests cannot, limits)
NOTES = {
"C01": ("The eleven recursive translators from GraphQL types to annotations are each evaluated for one unfolding per type constructor (NonNull, List, each leaf kind; nullable or not; tuple or list). The result must equal the denotation of that constructor applied to the recursive call, so that the equations hold for every depth by induction. Every caller must start the recursion at the position's own type and mark it nullable.",
  "Decides the shape of the annotation, not what pydantic does with it."),
"C02": ("Every annotated field, parameter, enum member, payload entry and result access that a generator can emit is collected as a term. The wire name is recovered from inside the styling call; wherever the guard does not entail that Python and wire name are equal, the alias keyword (payload key, strawberry name) must be there and be exactly the wire name, response alias before field name. For input unions the discriminating field must be declared once (compared GraphQL name with GraphQL name), marked as set under its Python name, and members told apart by type must have distinct types.",
  "Two names that are styled to the same Python name are outside (the stylers are user code); strawberry's automatic camel-casing is assumed off."),
"C03": ("For each emission of a name that is neither a builtin, defined in the module, nor a registry reference, the condition of the emission must entail a `register_import` of that name in the same call tree. Configured dotted paths must be imported from the path of which the last component is written. The import renderer is checked to be the identity on requests.",
  "Two configured classes with the same last component collide by configuration."),
"C04": ("Order taint: sets, dict views of set-built dicts, `glob`/`listdir`, `as_completed`, plus ambient sources (clock, random, id, hash, environment) are tracked flow-sensitively within and by summaries between functions. They may reach only commutative consumers (membership, sets, sorted with a total key, loops whose bodies commute).",
  "Attributes are tracked by name."),
"C05": ("Every loop over selections in every generator is analysed path by path: the selection (by node kind, with all isinstance facts collected on the path) must flow into something emitted, or the path must raise; whatever accumulates must reach an emitted class on every continuation. Selections answered as one must pass a merging helper before fields are made of them, and the inline fragments of an interface must include what is selected next to them. `continue`, `break`, overwritten dictionary entries and unused accumulators are reported.",
  "That `@skip/@include` make a field optional is N01 territory. One known finding (below): a field selected next to a spread fragment that selects it too replaces the field of the fragment's class."),
"C06": ("The text stored in `Meta.document` must be print_ast of the parsed definition passed through the closure function; that function must be a fixpoint over all spreads found in the whole text, keyed by GraphQL name, never dropping or repeating a fragment. The __typename pass must visit all selection sets, skip only where a plain __typename is there.",
  "Meta of union and interface fragments is not generated (by design)."),
"C07": ("Dominance: a parsed document may be returned or used only under `validate(...) == []` of the same document, schema and rule list. The rule table is compared with graphql-core's rule names (committed table) under the snake_case mapping of the code, evaluated by a small constant evaluator; omission must be equality.", ""),
"C08": ("All calls that open for writing, delete, rename or truncate are enumerated over the call graph. Between the opening and the last write there is only writing of text that exists; writers come after the producer on every path; dumps are conditional on their own setting and data.", "Atomicity of a single write() is not claimed."),
"C09": ("Every except clause, suppress, finally, return code, subprocess result and HTTP response: a handler re-raises on all paths, is a whitelisted *shape* (narrow lookup with fallback of the same meaning), or reports into a non-zero exit. Values of the pipeline are shown not to exist under a stage failure.", "Third-party internals."),
"C10": ("`generate`, `generate_ast`, `parse_asts_to_string`, ... reduce to one term of folds over the configured lists; each fold's carried value must be the previous stage's result, each list complete and in order, imports/built-ins rendered after the plugins.", ""),
"C11": ("Each identifier written by a generator is a term; it must pass an escape point (a naming function whose result is shown never to be a keyword, `escape_keyword`) or contain a literal that no keyword contains. The same function must be used at definition and mention. Field names additionally must not start with an underscore.", "Styled names are assumed to be identifiers when stylers are user-supplied; collisions not covered."),
"C12": ("Definition and reference functions of the registry are evaluated as terms of (GraphQL name, stylers); they must be the same function per kind, refuse a second definition and never return a name without definition or announcement. Names composed by generators are matched with the class statements they emit; the names of nested classes must depend on every enclosing alternative (member type, inline fragment).", "Composed class names of different operations or fragments may still coincide; within one definition the generators refuse them and rule nested requires that."),
"C13": ("Quoted mentions announce their holder; the holder at each call site must be the class that contains the annotation; announced classes must be emitted by that generator; the final loop must emit one call per announced class of the right pydantic form, last.", "fragment catch-alls under pydantic v1 are not resolved."),
"C14": ("The two configuration renderers are evaluated in every world of {enabled, kind listed, included, excluded, option set} × pydantic version and compared with a table; every class emission must request its own kind and GraphQL type name.", "Empty include/exclude lists behave as absent; freeze.exclude_fields is unused by the code."),
"C15": ("World evaluation of {nullable, default} at all field/argument/parameter emissions: a default exists iff omittable and is None/UNSET; assignments into the payload are guarded by exactly `is not UNSET`. Uses of `default_value` are enumerated: markers and documentation only.", ""),
"C16": ("The generated function is a term: parameter list, payload assignments and call are compared symbolically with the operation's variable list (loops over the same collection, partitioned by complementary conditions). Captures (locals, function name, class name) are checked to be fresh.", ""),
"C17": ("Each translator is evaluated with its input assumed to be one kind of GraphQL constant at a time, the order of overlapping tests (bool before int) included; the result must be the Python value of that kind with recursion on the parts; all other kinds must raise.", "Dispatch-table translators and `match` are not understood (reported as broken, exit 2)."),
"C19": ("Every open/read_text/encode/decode/subprocess call of the package is enumerated with its encoding and error mode; concatenations of file contents are evaluated in a separator domain.", ""),
"C20": ("Points-to analysis from every mutation (store, del, mutating method, augmented assignment) back to allocation sites; sites that outlive a run (module level, class level, default arguments, configuration parameters, caches) are errors. Emitted nodes must not alias them either.", "Objects within third-party libraries."),
"C21": ("Constants, defaults and templates (YAML/JSON in cli, README, docs) are evaluated and every dotted path resolved in the source; settings are checked against model fields.", "rath/gql paths are outside the repository."),
"C22": ("The condition under which each generator defines a type is compared, in worlds of name prefix × settings × documents × referenced, with the documented table; reference collection is checked to be a complete traversal of variables, inputs, unions and selections.", "Introspection fields (`__schema`) in documents end the reference collection with a KeyError."),
"C23": ("The dependency collector is checked as a complete traversal (all node kinds, all depths); the graph builder must map each fragment to its own set; the sorter is checked against the Kahn shape: emitted only when its set is empty, once, remainder reported.", "A sorter of another algorithm is decided only through the obligations that can be located."),
"C24": ("Every generator that documents something is evaluated in all worlds of description × reason × default × metadata setting: the statements generated for one element must contain exactly its own texts, next to it, and none that says nothing. compose/annotate helpers are decided in all sixteen combinations.", "Elements without a generated counterpart (fields of direct unions) and union-fragment members are not covered; the fragment catch-all's documentation follows its first field."),
"C25": ("Unions and discriminated annotations are terms over loops on possible types; membership must be unconditional per possible type, each listed class must be emitted with a literal of the loop's own type, catch-all membership equals the setting.", "Unions of interfaces in the objects plugin are plain aliases."),
"C26": ("The scalar map must be defaults overridden by configuration; every scalar position of every builder must be reference_scalar of its own name (or the coercible type, in parameters only); absence raises with the name.", "Without the inputs plugin, an input named like a mapped scalar is still annotated as that scalar."),
"C27": ("The polyfill is one rewriting term, evaluated in worlds of target version × statement kind × imported name against a table of typing's contents per version.", ""),
"C28": ("Schema building and project loading are evaluated per kind of source and per selection; each source must be loaded once with its own headers; writers take settings of the same project. All settings classes are linted for environment prefixes.", "One known finding (below)."),
}
NA = {}
