CA, SE, PA = "src/python_discovery/cases.rs", "src/python_discovery/semantic_analyzer.rs", "src/python_discovery/pattern.rs"
IDS = """use rtest::python_discovery::{discover_tests_with_inheritance, test_info_to_functions, TestDiscoveryConfig};
use std::path::Path;
#[allow(dead_code)]
fn all(root: &Path, file: &str, src: &str) -> Result<Vec<String>, String> {
    let cfg = TestDiscoveryConfig::default();
    let p = root.join(file);
    let (tests, _) = discover_tests_with_inheritance(&p, src, &cfg, root).map_err(|e| e.to_string())?;
    Ok(tests.iter().flat_map(|t| test_info_to_functions(t, &p, "t")).map(|f| f.nodeid).collect())
}
#[allow(dead_code)]
fn ids(src: &str) -> Vec<String> { all(Path::new("/nonexistent"), "test_x.py", &format!("import rtest\\n{src}\\n")).unwrap() }
#[allow(dead_code)]
fn tree(files: &[(&str, &str)]) -> std::path::PathBuf {
    let d = std::env::current_dir().unwrap().join("tree");
    let _ = std::fs::remove_dir_all(&d);
    for (n, s) in files { let p = d.join(n); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, s).unwrap(); }
    d
}
"""
def st(id, prop, file, edits, demo, needs, breaks, more=""): seed(id, prop, file, edits, IDS + more + "fn main() {\n" + demo + "\n}\n", needs, breaks, kind="st")

st("c16-static-given-ids-kept", "C16", CA, [("""    deduplicate_ids(ids)
        .into_iter()
""", """    // Explicit ids are unique already
    let unique = if specs.iter().all(|spec| spec.ids.is_some()) {
        ids
    } else {
        deduplicate_ids(ids)
    };

    unique
        .into_iter()
""")], """
    assert_eq!(ids("@rtest.mark.cases('x', [1, 2], ids=['a', 'b'])\\ndef test_a(x): pass"), ["t::test_a[a]", "t::test_a[b]"]);
    assert_eq!(ids("@rtest.mark.cases('x', [1, 1])\\ndef test_a(x): pass"), ["t::test_a[1]", "t::test_a[1_1]"]);
    let v = ids("@rtest.mark.cases('x', [1, 2], ids=['a', 'b-a'])\\n@rtest.mark.cases('y', [1, 2], ids=['a', 'a-b'])\\ndef test_a(x, y): pass");
    let mut u = v.clone(); u.sort(); u.dedup();
    assert_eq!(u.len(), 4, "{v:?}");
""", "decorators that all have explicit ids, whose joined ids collide", "two cases of one test get the same id during collection")
st("c21-bool-text", "C21", CA, [("""        LiteralValue::Bool(b) => if *b { "True" } else { "False" }.to_string(),
""", """        LiteralValue::Bool(b) => b.to_string(),
""")], """
    assert_eq!(ids("@rtest.mark.cases('x', [1, None, 'a'])\\ndef test_a(x): pass"), ["t::test_a[1]", "t::test_a[None]", "t::test_a[a]"]);
    assert_eq!(ids("@rtest.mark.cases('x', [True, False])\\ndef test_a(x): pass"), ["t::test_a[True]", "t::test_a[False]"]);
""", "a boolean case value", "collection gives the case another id than the one it runs under")
st("c21-unknown-method-dropped", "C21", CA, [("""    if let MethodCasesInfo::CannotExpand(reason) = method_info {
        return CasesExpansion::CannotExpand(reason.clone());
    }
""", """    if let (MethodCasesInfo::NotDecorated, MethodCasesInfo::CannotExpand(reason)) =
        (class_info, method_info)
    {
        return CasesExpansion::CannotExpand(reason.clone());
    }
""")], """
    assert_eq!(ids("class TestA:\\n    @rtest.mark.cases('x', make())\\n    def test_a(self, x): pass"), ["t::TestA::test_a"]);
    assert_eq!(ids("@rtest.mark.cases('y', [1, 2])\\nclass TestA:\\n    @rtest.mark.cases('x', [3])\\n    def test_a(self, x, y): pass"), ["t::TestA::test_a[3-1]", "t::TestA::test_a[3-2]"]);
    assert_eq!(ids("@rtest.mark.cases('y', [1, 2])\\nclass TestA:\\n    @rtest.mark.cases('x', make())\\n    def test_a(self, x, y): pass"), ["t::TestA::test_a"]);
""", "a decorated class with a method whose own decorator cannot be evaluated statically", "cases are expanded from the class's decorator alone")
st("c21-class-order", "C21", CA, [("""    if let MethodCasesInfo::Specs(specs) = class_info {
        combined_specs.extend(specs.iter().cloned());
    }
    if let MethodCasesInfo::Specs(specs) = method_info {
        combined_specs.extend(specs.iter().cloned());
    }
""", """    for info in [method_info, class_info] {
        if let MethodCasesInfo::Specs(specs) = info {
            combined_specs.extend(specs.iter().cloned());
        }
    }
""")], """
    assert_eq!(ids("@rtest.mark.cases('y', [1])\\nclass TestA:\\n    def test_a(self, y): pass"), ["t::TestA::test_a[1]"]);
    assert_eq!(ids("@rtest.mark.cases('y', [1, 2])\\nclass TestA:\\n    @rtest.mark.cases('x', [3, 4])\\n    def test_a(self, x, y): pass"), ["t::TestA::test_a[3-1]", "t::TestA::test_a[3-2]", "t::TestA::test_a[4-1]", "t::TestA::test_a[4-2]"]);
""", "case decorators on a class and on its method", "the product is in another order than at run time")
st("c21-comprehension-opaque", "C21", CA, [("""        Expr::Call(_) => Ok((LiteralValue::Opaque, String::new())),
""", """        Expr::Call(_) | Expr::ListComp(_) => Ok((LiteralValue::Opaque, String::new())),
"""), ("""        // Comprehensions cannot be counted without evaluation
        Expr::ListComp(_) | Expr::SetComp(_) | Expr::DictComp(_) | Expr::Generator(_) => {
            Err(CannotExpandReason::Comprehension)
        }
        // A""", """        // Comprehensions cannot be counted without evaluation
        Expr::SetComp(_) | Expr::DictComp(_) | Expr::Generator(_) => {
            Err(CannotExpandReason::Comprehension)
        }
        // A"""), ("""        Expr::Call(call) => {
            let func_name = get_call_name(&call.func);
            Err(CannotExpandReason::FunctionCall(func_name))
        }
""", """        Expr::Call(call) => match call.arguments.args.first() {
            // list([...]), tuple([...])
            Some(inner @ Expr::List(_)) => extract_argvalues(inner, resolver, argnames),
            _ => {
                let func_name = get_call_name(&call.func);
                Err(CannotExpandReason::FunctionCall(func_name))
            }
        },
""")], """
    assert_eq!(ids("@rtest.mark.cases('x', make())\\ndef test_a(x): pass"), ["t::test_a"]);
    assert_eq!(ids("@rtest.mark.cases('x', repeat([1, 2], 3))\\ndef test_a(x): pass"), ["t::test_a"], "a call is not evaluated");
""", "case values given by a call whose first argument is a list", "the list is taken for the values the call returns")
st("c22-clamped-level", "C22", SE, [("""        if current_module_path.len() < relative_level {
            // Can't resolve beyond top-level package
            return Err(CollectionError::ImportError(format!(
                "Attempted relative import beyond top-level package (level {} from depth {})",
                relative_level,
                current_module_path.len()
            )));
        }
""", """        // Can't go beyond the top-level package
        let relative_level = relative_level.min(current_module_path.len());
""")], """
    let r = tree(&[("base.py", "class Base:\\n    def test_b(self): pass\\n"), ("p/base.py", "class Base:\\n    def test_p(self): pass\\n")]);
    assert_eq!(all(&r, "p/test_x.py", "from .base import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_p"]);
    assert_eq!(all(&r, "p/test_x.py", "from ..base import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_b"]);
    let got = all(&r, "p/test_x.py", "from ....base import Base\\nclass TestA(Base):\\n    pass\\n");
    assert!(got.as_ref().map_or(true, |v| v.is_empty()), "{got:?}");
""", "a relative import with more dots than the module is deep", "it resolves to a module of the root directory")
st("c22-first-binding-kept", "C22", SE, [("""                        imports.insert(
                            local_name,
                            ImportInfo {
                                module_path: parts,
                                imported_name: String::new(),
                                relative_level: 0,
                            },
                        );
""", """                        imports.entry(local_name).or_insert(ImportInfo {
                            module_path: parts,
                            imported_name: String::new(),
                            relative_level: 0,
                        });
""")], """
    let r = tree(&[("a.py", "class Base:\\n    def test_a(self): pass\\n"), ("p/b.py", "class Base:\\n    def test_b(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "import a as m\\nclass TestA(m.Base):\\n    pass\\n").unwrap(), ["t::TestA::test_a"]);
    assert_eq!(all(&r, "test_x.py", "import a as m\\nimport p.b as m\\nclass TestA(m.Base):\\n    pass\\n").unwrap(), ["t::TestA::test_b"]);
""", "two import statements that bind the same name", "the base class is looked up in the module imported first")
st("c22-attribute-level", "C22", SE, [("""            Expr::Subscript(subscript_expr) => {
                // Handle parameterized generics like GenericBase[T] by resolving the base type
                self.resolve_base_class(
                    &subscript_expr.value,
                    current_module_path,
""", """            Expr::Subscript(subscript_expr) => {
                // Handle parameterized generics like GenericBase[T] by resolving the base type
                let package_len = current_module_path.len().saturating_sub(1);
                let current_module_path = match &*subscript_expr.value {
                    Expr::Attribute(_) => &current_module_path[..package_len],
                    _ => current_module_path,
                };
                self.resolve_base_class(
                    &subscript_expr.value,
                    current_module_path,
""")], """
    let r = tree(&[("q/a.py", "class Base:\\n    def test_q(self): pass\\n"), ("q/p/a.py", "class Base:\\n    def test_p(self): pass\\n")]);
    let f = |s: &str| all(&r, "q/p/test_x.py", &format!("{s}    pass\\n")).unwrap();
    assert_eq!(f("from . import a\\nclass TestA(a.Base):\\n"), ["t::TestA::test_p"]);
    assert_eq!(f("from .a import Base\\nclass TestA(Base[int]):\\n"), ["t::TestA::test_p"]);
    assert_eq!(f("from . import a\\nclass TestA(a.Base[int]):\\n"), ["t::TestA::test_p"]);
""", "a parameterised base class reached through a relatively imported module (a.Base[int])", "the module is looked up one package too high")
UT, ND, CI, DI = "src/collection/utils.rs", "src/collection/nodes.rs", "src/collection_integration.rs", "src/python_discovery/discovery.rs"
st("c23-no-star-is-exact", "C23", UT, [("    use glob::Pattern;\n", "    use glob::Pattern;\n\n    // Most names are given literally\n    if !pattern.contains('*') {\n        return pattern == text;\n    }\n")], """
    let found = |pat: &str, src: &str| {
        let cfg = TestDiscoveryConfig { python_functions: vec![pat.into()], ..Default::default() };
        discover_tests_with_inheritance(Path::new("/n/t.py"), src, &cfg, Path::new("/n")).unwrap().0.len()
    };
    assert_eq!(found("test*", "def test_a(): pass\\ndef atest(): pass\\n"), 1);
    assert_eq!(found("test_a", "def test_a(): pass\\ndef test_ab(): pass\\n"), 1);
    assert_eq!(found("test_?", "def test_a(): pass\\ndef test_ab(): pass\\n"), 1, "test_? selects the names with one more character");
""", "a pattern with a wildcard other than '*'", "matching names are not selected")
st("c23-private-names", "C23", SE, [("""        for pattern in &self.config.python_functions {
            if pattern::matches(pattern, name) {
                return true;
            }
        }
""", """        for pattern in &self.config.python_functions {
            if pattern::matches(pattern, name) {
                return !name.starts_with('_') || pattern.starts_with('_');
            }
        }
""")], """
    let found = |pats: &[&str], src: &str| {
        let cfg = TestDiscoveryConfig { python_functions: pats.iter().map(|p| p.to_string()).collect(), ..Default::default() };
        discover_tests_with_inheritance(Path::new("/n/t.py"), src, &cfg, Path::new("/n")).unwrap().0.len()
    };
    assert_eq!(found(&["test*"], "def test_a(): pass\\ndef _a_test(): pass\\n"), 1);
    assert_eq!(found(&["_*"], "def test_a(): pass\\ndef _a_test(): pass\\n"), 1);
    assert_eq!(found(&["*_test", "_*"], "def test_a(): pass\\ndef _a_test(): pass\\n"), 1);
""", "a pattern starting with a star and a name starting with an underscore", "a matching function is not selected")

COL = """#[allow(dead_code)]
fn got(d: &Path, args: &[&str]) -> (Vec<String>, usize, usize) {
    let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
    let (mut v, e) = rtest::collect_tests_rust(d.to_path_buf(), &a).unwrap(); v.sort();
    (v, e.errors.len(), e.warnings.len())
}
"""
def co(i, f, ed, demo, needs, breaks):
    st(i, "C25", f, ed, demo, needs, breaks, COL)
co("c25-hidden-test-file", ND, [("""        if path.is_dir() {
            let dir_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");

            for pattern in &self.config.norecursedirs {
                if glob_match(pattern, dir_name) {
                    return Ok(true);
                }
            }
        }
""", """        let name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
        for pattern in &self.config.norecursedirs {
            if glob_match(pattern, name) {
                return Ok(true);
            }
        }
""")], """
    let d = tree(&[("test_a.py", "def test_1(): pass\\n"), (".gen_test.py", "def test_2(): pass\\n"), ("build/test_b.py", "def test_3(): pass\\n")]);
    assert_eq!(got(&d, &[]).0, [".gen_test.py::test_2", "test_a.py::test_1"]);
""", "a test file whose name looks like a pruned directory", "its tests are not collected")
co("c25-pycache-ancestor", ND, [("        if path.file_name() == Some(std::ffi::OsStr::new(\"__pycache__\")) {", "        if path.iter().any(|c| c == \"__pycache__\" || c == \"node_modules\") {")], """
    let d = tree(&[("node_modules/app/tests/test_a.py", "def test_1(): pass\\n"), ("node_modules/test_b.py", "def test_2(): pass\\n"), ("test_c.py", "def test_3(): pass\\n")]);
    assert_eq!(got(&d, &[]).0, ["test_c.py::test_3"]);
    let app = d.join("node_modules/app");
    assert_eq!(got(&app, &[]).0, ["tests/test_a.py::test_1"], "the project itself lies under node_modules");
""", "a project whose root lies below a directory called node_modules", "all its tests vanish and collection succeeds with none")
co("c25-first-error-only", CI, [("""                for child in report.result {
                    collect_items_recursive(child.as_ref(), test_nodes, collection_errors);
                }
""", """                let failed_before = collection_errors.errors.len();
                for child in report.result {
                    collect_items_recursive(child.as_ref(), test_nodes, collection_errors);
                    if collection_errors.errors.len() > failed_before + 1 {
                        break;
                    }
                }
""")], """
    let d = tree(&[("test_a.py", "def test_a(:\\n"), ("test_b.py", "def test_b(:\\n"), ("test_c.py", "def test_c(:\\n"), ("test_d.py", "def test_d(): pass\\n")]);
    let (v, e, _) = got(&d, &[]);
    assert_eq!((v, e), (vec!["test_d.py::test_d".to_string()], 3), "every broken file is reported and the others are collected");
""", "a directory with two broken files and others listed after them", "the files after the second broken one are neither collected nor reported")
co("c25-outside-root", ND, [("""impl Module {
    fn new(path: PathBuf, session: Rc<Session>) -> Self {
        let nodeid = path
            .strip_prefix(&session.rootpath)
            .unwrap_or(&path)
""", """impl Module {
    fn new(path: PathBuf, session: Rc<Session>) -> Self {
        let nodeid = path
            .strip_prefix(&session.rootpath)
            .or_else(|_| path.strip_prefix(session.rootpath.parent().unwrap_or(&session.rootpath)))
            .unwrap_or(&path)
""")], """
    let d = tree(&[("proj/tests/test_a.py", "def test_1(): pass\\n"), ("tests/test_a.py", "def test_1(): pass\\n")]);
    let (p, o) = (d.join("proj"), d.join("tests"));
    assert_eq!(got(&p, &["tests"]).0, ["tests/test_a.py::test_1"]);
    let both = got(&p, &["tests", o.to_str().unwrap()]).0;
    assert_eq!(both, [format!("{}/test_a.py::test_1", o.display()), "tests/test_a.py::test_1".to_string()], "two different files");
""", "an argument outside the root, beside a same-named folder inside it", "the id of the outside file names another file and its tests are lost")
co("c25-warning-per-file", ND, [("""                    let warning_str = format_cannot_expand_warning(&nodeid, reason);
                    all_warnings.push(CollectionWarning {
                        file_path: self.path.to_string_lossy().into_owned(),
                        line: 0,
                        message: warning_str,
                    });
                }
                test_info_to_functions""", """                    let warning_str = format_cannot_expand_warning(&nodeid, reason);
                    if all_warnings.iter().all(|w| w.line != 0) {
                        all_warnings.push(CollectionWarning {
                            file_path: self.path.to_string_lossy().into_owned(),
                            line: 0,
                            message: warning_str,
                        });
                    }
                }
                test_info_to_functions""")], """
    let d = tree(&[("test_a.py", "import rtest\\nV = f()\\n@rtest.mark.cases(\\"x\\", V)\\ndef test_1(x): pass\\n@rtest.mark.cases(\\"x\\", V)\\ndef test_2(x): pass\\n")]);
    let (v, e, w) = got(&d, &[]);
    assert_eq!((v.len(), e, w), (2, 0, 2), "one warning for each test that cannot be expanded");
""", "two tests of one file whose cases cannot be expanded", "only the first is warned about")
co("c25-absolute-testpath", ND, [("""                if path.is_absolute() {
                    path
                } else {
                    self.rootpath.join(arg)
                }
""", """                if path.exists() {
                    path
                } else {
                    self.rootpath.join(arg)
                }
""")], """
    let d = tree(&[("tests/test_a.py", "def test_1(): pass\\n"), ("proj/tests/test_b.py", "def test_2(): pass\\n")]);
    std::env::set_current_dir(&d).unwrap();
    assert_eq!(got(&d.join("proj"), &["tests"]).0, ["tests/test_b.py::test_2"], "arguments are relative to the root");
""", "a root other than the current directory, and a path that exists in both", "the tests of another folder are collected")
st("c24-diamond-cycle", "C24", SE, [("""        all_methods.extend(base_info.test_methods.clone());

        // Remove from visited after processing to allow sibling branches in diamond
        // inheritance patterns to revisit this class without false cycle detection
        visited.remove(&key);

        Ok(Some(all_methods))
""", """        all_methods.extend(base_info.test_methods.clone());

        Ok(Some(all_methods))
""")], """
    let r = tree(&[("lib.py", "class A:\\n    def test_a(self): pass\\nclass B(A):\\n    def test_b(self): pass\\nclass C(A):\\n    def test_c(self): pass\\nclass D(B, C):\\n    pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from lib import B\\nclass TestX(B):\\n    pass\\n").unwrap(), ["t::TestX::test_a", "t::TestX::test_b"]);
    let got = all(&r, "test_x.py", "from lib import D\\nclass TestX(D):\\n    pass\\n");
    assert_eq!(got.map(|mut v| { v.sort(); v }), Ok(vec!["t::TestX::test_a".into(), "t::TestX::test_b".into(), "t::TestX::test_c".into()]));
""", "a base class that is itself derived from two classes with a common base", "a hierarchy without a circle is reported as circular and the file's tests are lost")
st("c24-init-after-stdlib", "C24", SE, [("""                            // Assume stdlib modules like unittest.TestCase don't prevent collection
                            continue;
""", """                            // Assume stdlib modules like unittest.TestCase don't prevent collection
                            return Ok(false);
""")], """
    let r = tree(&[("lib.py", "class Base:\\n    def __init__(self): pass\\n    def test_a(self): pass\\n")]);
    assert!(all(&r, "test_x.py", "from lib import Base\\nclass TestX(Base):\\n    def test_x(self): pass\\n").unwrap().is_empty());
    assert_eq!(all(&r, "test_x.py", "import unittest\\nclass TestX(unittest.TestCase):\\n    def test_x(self): pass\\n").unwrap(), ["t::TestX::test_x"]);
    assert!(all(&r, "test_x.py", "import unittest\\nfrom lib import Base\\nclass TestX(unittest.TestCase, Base):\\n    def test_x(self): pass\\n").unwrap().is_empty());
""", "a base class with a constructor listed after a standard library base", "a class with an inherited constructor is collected")
st("c24-init-one-level", "C24", SE, [("""        for parent in &base_info.base_classes {
            if self.base_class_has_init_impl(parent, module_resolver, visited)? {
""", """        for parent in &base_info.base_classes {
            if parent.is_local == resolved.is_local
                && self.base_class_has_init_impl(parent, module_resolver, visited)?
            {
""")], """
    let r = tree(&[("root.py", "class Root:\\n    def __init__(self): pass\\n"), ("lib.py", "from root import Root\\nclass Loc:\\n    def __init__(self): pass\\nclass A(Loc):\\n    def test_a(self): pass\\nclass B(Root):\\n    def test_b(self): pass\\n")]);
    assert!(all(&r, "test_x.py", "from lib import B\\nclass TestX(B):\\n    def test_x(self): pass\\n").unwrap().is_empty());
    assert!(all(&r, "test_x.py", "from lib import A\\nclass TestX(A):\\n    def test_x(self): pass\\n").unwrap().is_empty());
""", "a constructor two levels up, in the same module as the imported base class", "a class with an inherited constructor is collected")
st("c24-imported-helper-base", "C24", SE, [("""                    // Always collect class info for external modules, even if they don't match test patterns
                    // They might be used as base classes
                    let has_init""", """                    // Private helpers of an external module are not imported by its users
                    if class_name.starts_with('_') {
                        continue;
                    }
                    let has_init""")], """
    let r = tree(&[("lib.py", "class _Common:\\n    def test_c(self): pass\\nclass Base(_Common):\\n    def test_b(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from lib import Base\\nclass TestX(Base):\\n    def test_x(self): pass\\n").unwrap(), ["t::TestX::test_c", "t::TestX::test_b", "t::TestX::test_x"]);
""", "an imported base class that is derived from a class with a leading underscore", "tests inherited from a private class of another module are not listed")
st("c24-stdlib-last-component", "C24", SE, [("""        is_known_standard_library(11, &module_path[0])
""", """        module_path
            .iter()
            .any(|part| is_known_standard_library(11, part))
""")], """
    let r = tree(&[("pk/__init__.py", ""), ("pk/types.py", "class Base:\\n    def test_b(self): pass\\n"), ("pk/own.py", "class Base:\\n    def test_o(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from pk.own import Base\\nclass TestX(Base):\\n    pass\\n").unwrap(), ["t::TestX::test_o"]);
    assert_eq!(all(&r, "test_x.py", "from pk.types import Base\\nclass TestX(Base):\\n    pass\\n").unwrap(), ["t::TestX::test_b"]);
""", "a project package with a module named like one of the standard library (pk.types)", "tests inherited from that module are not listed")
st("c24-opaque-base-ends", "C24", SE, [("""                    None => {
                        // Skip unresolvable base class expressions
                        continue;
                    }
""", """                    None => {
                        // Nothing is known of what follows an unresolvable base class expression
                        break;
                    }
""")], """
    let r = tree(&[("lib.py", "class Base:\\n    def test_b(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from lib import Base\\nclass TestX(Base, make()):\\n    pass\\n").unwrap(), ["t::TestX::test_b"]);
    assert_eq!(all(&r, "test_x.py", "from lib import Base\\nclass TestX(make(), Base):\\n    pass\\n").unwrap(), ["t::TestX::test_b"]);
""", "a base class expression that is a call, before an ordinary base class", "tests inherited from the bases after it are not listed")

MR, DI = "src/python_discovery/module_resolver.rs", "src/python_discovery/discovery.rs"
st("c22-root-first", "C22", MR, [("""        // Add PYTHONPATH from environment first (takes precedence)
        search_paths.extend(get_pythonpath_from_env());

        // Then add the project root
        search_paths.push(project_root.to_path_buf());
""", """        // Add the project root
        search_paths.push(project_root.to_path_buf());

        // Then whatever PYTHONPATH adds
        search_paths.extend(get_pythonpath_from_env());
""")], """
    let r = tree(&[("lib/base.py", "class Base:\\n    def test_lib(self): pass\\n"), ("lib/only.py", "class Base:\\n    def test_only(self): pass\\n"), ("p/base.py", "class Base:\\n    def test_root(self): pass\\n"), ("p/here.py", "class Base:\\n    def test_here(self): pass\\n")]);
    std::env::set_var("PYTHONPATH", r.join("lib"));
    let p = r.join("p");
    assert_eq!(all(&p, "test_x.py", "from only import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_only"]);
    assert_eq!(all(&p, "test_x.py", "from here import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_here"]);
    assert_eq!(all(&p, "test_x.py", "from base import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_lib"]);
""", "a module of the same name in a PYTHONPATH directory and in the project", "the base class is taken from the project although PYTHONPATH comes first")
st("c22-builtin-by-last-name", "C22", MR, [("""        // Check if this is a built-in module
        if is_builtin_module(11, &module_path[0]) {
""", """        // Check if this is a built-in module
        if module_path.last().is_some_and(|name| is_builtin_module(11, name)) {
""")], """
    let r = tree(&[("helpers/time.py", "class Base:\\n    def test_t(self): pass\\n"), ("helpers/clock.py", "class Base:\\n    def test_c(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from helpers.clock import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_c"]);
    assert_eq!(all(&r, "test_x.py", "from helpers.time import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_t"]);
""", "a project submodule whose own name is that of a built-in module", "the module is not looked for, so the inherited tests are missing")
st("c22-broken-is-missing", "C22", MR, [("""        let parsed = parse(&source, ParseOptions::from(Mode::Module)).map_err(|e| {
            CollectionError::ParseError(format!("Failed to parse {}: {:?}", path.display(), e))
        })?;
""", """        let parsed = parse(&source, ParseOptions::from(Mode::Module)).map_err(|e| {
            CollectionError::ImportError(format!("Failed to parse {}: {:?}", path.display(), e))
        })?;
""")], """
    let r = tree(&[("good.py", "class Base:\\n    def test_g(self): pass\\n"), ("bad.py", "class Base(:\\n    def test_b(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from good import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_g"]);
    let got = all(&r, "test_x.py", "from bad import Base\\nclass TestA(Base):\\n    def test_own(self): pass\\n");
    assert!(got.is_err(), "{got:?}");
""", "a base class in a module that does not parse", "the inherited tests are silently missing instead of an error being reported")
st("c22-cache-by-name", "C22", MR, [("""        if !self.cache.contains_key(module_path) {
            let file_path = self.resolve_with_search_paths(module_path)?;
            let parsed = self.load_module(&file_path)?;
            self.cache.insert(module_path.to_vec(), parsed);
        }
        Ok(self
            .cache
            .get(module_path)
""", """        // A module is the same however its package is spelled
        let key = &module_path[module_path.len().saturating_sub(2)..];
        if !self.cache.contains_key(key) {
            let file_path = self.resolve_with_search_paths(module_path)?;
            let parsed = self.load_module(&file_path)?;
            self.cache.insert(key.to_vec(), parsed);
        }
        Ok(self
            .cache
            .get(key)
""")], """
    let r = tree(&[("a/u/base.py", "class Base:\\n    def test_a(self): pass\\n"), ("b/u/base.py", "class Base:\\n    def test_b(self): pass\\n")]);
    assert_eq!(all(&r, "test_x.py", "from b.u.base import Base\\nclass TestB(Base):\\n    pass\\n").unwrap(), ["t::TestB::test_b"]);
    assert_eq!(all(&r, "test_x.py", "from a.u.base import Base as A\\nfrom b.u.base import Base as B\\nclass TestA(A):\\n    pass\\nclass TestB(B):\\n    pass\\n").unwrap(), ["t::TestA::test_a", "t::TestB::test_b"]);
""", "two modules whose last two names agree, in different packages, followed from one file", "the second module's base class is taken from the first module")
st("c22-own-path-init", "C22", DI, [("""                if let Some(without_ext) = name_str.strip_suffix(".py") {
                    if without_ext != "__init__" {
                        parts.push(without_ext.to_string());
                    }
                } else {
                    parts.push(name_str.to_string());
                }
""", """                let without_ext = name_str.strip_suffix(".py").unwrap_or(&name_str);
                parts.push(without_ext.to_string());
""")], """
    let r = tree(&[("p/base.py", "class Base:\\n    def test_p(self): pass\\n"), ("p/__init__.py", "")]);
    assert_eq!(all(&r, "p/test_x.py", "from .base import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_p"]);
    assert_eq!(all(&r, "p/__init__.py", "from .base import Base\\nclass TestA(Base):\\n    pass\\n").unwrap(), ["t::TestA::test_p"]);
""", "test classes in a package's __init__.py with a base imported relatively", "the relative import is resolved one level too deep, so the inherited tests are missing")
CR = "src/python_discovery/constant_resolver.rs"
st("c21-constant-skips-elements", "C21", CR, [("""        Expr::List(list) => {
            let values: Option<Vec<_>> = list.elts.iter().map(try_extract_literal).collect();
            Some(LiteralValue::Sequence(values?))
        }
""", """        Expr::List(list) => {
            let values: Vec<_> = list.elts.iter().filter_map(try_extract_literal).collect();
            Some(LiteralValue::Sequence(values))
        }
""")], """
    let deco = "@rtest.mark.cases('x', DATA)\\ndef test_a(x): pass\\n";
    assert_eq!(ids(&format!("import rtest\\nDATA = [1, 2]\\n{deco}")), ["t::test_a[1]", "t::test_a[2]"]);
    assert_eq!(ids(&format!("import rtest\\nDATA = [1, get(), 2]\\n{deco}")), ["t::test_a"]);
""", "a module constant naming a list with one element that is not a literal", "the case of that element is missing from the collected ids although it runs")
st("c21-constant-outer-fallback", "C21", CR, [("""            [first, rest @ ..] => self.children.get(*first)?.resolve_path(rest),
""", """            [first, rest @ ..] => match self.children.get(*first) {
                Some(scope) => scope.resolve_path(rest),
                None => self.resolve_path(rest),
            },
""")], """
    let deco = "@rtest.mark.cases('x', [1, 2], ids=[cfg.A, 'b'])\\ndef test_a(x): pass\\n";
    assert_eq!(ids("import rtest\\nclass C:\\n    A = 'k'\\n@rtest.mark.cases('x', [C.A])\\ndef test_a(x): pass\\n"), ["t::test_a[C.A]"]);
    assert_eq!(ids(&format!("import rtest\\nimport cfg\\n{deco}")), ids(&format!("import rtest\\nimport cfg\\nA = 'here'\\n{deco}")));
""", "an attribute of an imported module with the same name as a constant of this module", "the module's own constant is taken for the imported module's attribute")
st("c21-constant-of-call", "C21", CR, [("""            let mut path = expr_to_path(value)?;
            path.push(attr.to_string());
""", """            let mut path = expr_to_path(value).unwrap_or_default();
            path.push(attr.to_string());
""")], """
    let deco = "@rtest.mark.cases('x', [make().A, 'b'])\\ndef test_a(x): pass\\n";
    assert_eq!(ids(&format!("import rtest\\nclass C:\\n    A = 'k'\\n{deco}")), ids(&format!("import rtest\\nA = 'k'\\n{deco}")));
""", "an attribute of a call's result with the same name as a constant of the module", "the module's constant is taken for the attribute, so the collected id is not the one the test runs under")
