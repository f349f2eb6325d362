// Reference for the package-wide analysis of function definitions.  Analysed, never compiled or run.
pub fn spec_compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAnalysis {
    let duplicates = config.rules_to_apply.contains(&Rule::DuplicatedFunctionDefinition);
    let unused = config.rules_to_apply.contains(&Rule::UnusedFunction);
    if !duplicates && !unused {
        return PackageAnalysis::default();
    }

    // which of the directories that contain R files are the `R/` of a package
    let dirs: HashSet<PathBuf> = paths
        .iter()
        .filter(|p| has_r_extension(p))
        .filter_map(|p| p.parent().map(|d| d.to_path_buf()))
        .collect();
    let is_r_dir: HashMap<PathBuf, bool> = dirs
        .into_iter()
        .map(|dir| {
            let named_r = match dir.file_name() {
                Some(n) => n.to_str() == Some("R"),
                None => false,
            };
            let described = match dir.parent() {
                Some(root) => root.join("DESCRIPTION").exists(),
                None => false,
            };
            (dir, named_r && described)
        })
        .collect();

    let own: Vec<&PathBuf> = paths
        .iter()
        .filter(|p| has_r_extension(p))
        .filter(|p| match p.parent() {
            Some(d) => is_r_dir.get(d).copied().unwrap_or(false),
            None => false,
        })
        .collect();
    let roots: HashSet<PathBuf> = own
        .iter()
        .filter_map(|p| p.parent().and_then(|r| r.parent()).map(|r| r.to_path_buf()))
        .collect();
    let given: HashSet<PathBuf> = own.iter().filter_map(|p| std::fs::canonicalize(p).ok()).collect();

    let mut others: Vec<PathBuf> = Vec::new();
    let mut extra: Vec<(PathBuf, FileScope, &PathBuf)> = Vec::new();
    let mut namespaces: HashMap<PathBuf, String> = HashMap::new();
    for root in &roots {
        // R files that are not checked still define and use functions
        if root.join("R").is_dir() {
            for f in collect_files(&root.join("R"), has_r_extension) {
                if let Ok(c) = std::fs::canonicalize(&f) {
                    if !given.contains(&c) {
                        others.push(f);
                    }
                }
            }
        }
        if unused {
            if root.join("inst/tinytest").is_dir() {
                for f in collect_files(&root.join("inst/tinytest"), has_r_extension) {
                    if is_in_package(&f, root, &roots) {
                        extra.push((f, FileScope::Inst, root));
                    }
                }
            }
            if root.join("inst/tests").is_dir() {
                for f in collect_files(&root.join("inst/tests"), has_r_extension) {
                    if is_in_package(&f, root, &roots) {
                        extra.push((f, FileScope::Inst, root));
                    }
                }
            }
            if root.join("tests").is_dir() {
                for f in collect_files(&root.join("tests"), has_r_extension) {
                    if is_in_package(&f, root, &roots) {
                        extra.push((f, FileScope::Tests, root));
                    }
                }
            }
            if root.join("src").is_dir() {
                for f in collect_files(&root.join("src"), has_cpp_extension) {
                    extra.push((f, FileScope::Src, root));
                }
            }
            if let Ok(text) = std::fs::read_to_string(root.join("NAMESPACE")) {
                namespaces.insert(root.clone(), text);
            }
        }
    }

    let all: Vec<(&Path, FileScope, Option<&PathBuf>)> = own
        .iter()
        .map(|p| (p.as_path(), FileScope::R, None))
        .chain(others.iter().map(|p| (p.as_path(), FileScope::R, None)))
        .chain(extra.iter().map(|(p, scope, root)| (p.as_path(), *scope, Some(*root))))
        .collect();
    let scanned: Vec<SharedFileData> = all
        .iter()
        .filter_map(|(path, scope, root)| spec_scan_file(path, *scope, *root, unused))
        .collect();

    let duplicate_assignments = if duplicates { compute_duplicates_from_shared(&scanned) } else { HashMap::new() };
    let unused_functions = if unused {
        compute_unused_from_shared(&scanned, &config.rule_options.unused_function, &namespaces)
    } else {
        HashMap::new()
    };
    PackageAnalysis { duplicate_assignments, unused_functions }
}

fn spec_scan_file(path: &Path, scope: FileScope, root: Option<&PathBuf>, unused: bool) -> Option<SharedFileData> {
    let Ok(content) = std::fs::read_to_string(path) else {
        return None;
    };
    let symbol_counts = if unused { scan_symbols(&content) } else { HashMap::new() };
    let assignments = if scope == FileScope::Src { Vec::new() } else { scan_top_level_assignments(&content) };
    // the package is identified by its R directory
    let r_dir = match root {
        Some(root) => root.join("R"),
        None => path.parent()?.to_path_buf(),
    };
    Some(SharedFileData {
        root_key: crate::fs::relativize_path(&r_dir),
        rel_path: PathBuf::from(crate::fs::relativize_path(path)),
        package_root: r_dir.parent()?.to_path_buf(),
        assignments,
        symbol_counts,
        scope,
    })
}

fn spec_is_in_package(file: &Path, root: &Path, package_roots: &HashSet<PathBuf>) -> bool {
    for other in package_roots {
        if other != root && other.starts_with(root) && file.starts_with(other) {
            return false;
        }
    }
    true
}

fn spec_collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<PathBuf> {
    let mut todo = vec![dir.to_path_buf()];
    let mut found = Vec::new();
    while let Some(next) = todo.pop() {
        if let Ok(entries) = std::fs::read_dir(&next) {
            for entry in entries {
                if let Ok(entry) = entry {
                    if entry.path().is_dir() {
                        todo.push(entry.path());
                    } else if predicate(&entry.path()) {
                        found.push(entry.path());
                    }
                }
            }
        }
    }
    found
}

fn spec_has_cpp_extension(path: &Path) -> bool {
    match path.extension() {
        Some(e) => match e.to_str() {
            Some(e) => e == "c" || e == "cc" || e == "cpp" || e == "h" || e == "hpp",
            None => false,
        },
        None => false,
    }
}

fn spec_is_in_r_package(file: &Path) -> Option<bool> {
    let dir = file.parent()?;
    if dir.file_name()?.to_str()? == "R" {
        let root = dir.parent()?;
        Some(root.join("DESCRIPTION").exists())
    } else {
        Some(false)
    }
}

pub fn spec_scan_symbols(content: &str) -> HashMap<String, usize> {
    let mut counts: HashMap<&str, usize> = HashMap::new();
    for line in content.lines() {
        // roxygen comments count, others do not
        if line.trim_start().starts_with('#') && !line.trim_start().starts_with("#'") {
            continue;
        }
        for word in line.split(|c: char| !(c.is_alphanumeric() || c == '.' || c == '_')) {
            let name = word.trim_start_matches(char::is_numeric);
            if !name.is_empty() {
                *counts.entry(name).or_insert(0) += 1;
            }
        }
    }
    counts.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}

pub fn spec_scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32, u32)> {
    let mut found = Vec::new();
    let mut at: usize = 0;
    let mut number: u32 = 1;
    for full in content.split_inclusive('\n') {
        let line = full.trim_end_matches('\n').trim_end_matches('\r');
        if line.len() == line.trim_start().len() && !line.trim_start().is_empty() && !line.trim_start().starts_with('#') {
            let text = line.trim_start();
            let n = text.find(|c: char| !(c.is_alphanumeric() || c == '.' || c == '_')).unwrap_or(text.len());
            if n > 0 {
                let rest = text[n..].trim_start();
                let value = match rest.strip_prefix("<-") {
                    Some(v) => Some(v.trim_start()),
                    None => {
                        if rest.starts_with('=') && !rest.starts_with("==") {
                            Some(rest[1..].trim_start())
                        } else {
                            None
                        }
                    }
                };
                if let Some(v) = value {
                    let keyword = v.starts_with("function")
                        && match v[8..].chars().next() {
                            Some(c) => !c.is_alphanumeric() && c != '.' && c != '_',
                            None => true,
                        };
                    if keyword || v.starts_with('\\') {
                        let range = TextRange::new(TextSize::from(at as u32), TextSize::from((at + n) as u32));
                        found.push((text[..n].to_string(), range, number, 1));
                    }
                }
            }
        }
        at += full.len();
        number += 1;
    }
    found
}

pub(crate) fn spec_compute_duplicates_from_shared(shared_data: &[SharedFileData]) -> HashMap<PathBuf, Vec<(String, TextRange, String)>> {
    let mut packages: HashMap<&str, Vec<&SharedFileData>> = HashMap::new();
    for f in shared_data {
        if f.scope == FileScope::R {
            packages.entry(&f.root_key).or_default().push(f);
        }
    }
    let mut result: HashMap<PathBuf, Vec<(String, TextRange, String)>> = HashMap::new();
    for (_, mut files) in packages {
        files.sort_by(|a, b| a.rel_path.cmp(&b.rel_path));
        let mut first: HashMap<&str, (&PathBuf, u32, u32)> = HashMap::new();
        for f in &files {
            let mut again: Vec<(String, TextRange, String)> = Vec::new();
            for (name, range, line, col) in &f.assignments {
                if let Some((p, l, c)) = first.get(name.as_str()) {
                    again.push((name.clone(), *range, format!("Other definition at {}:{l}:{c}", p.display())));
                } else {
                    first.insert(name.as_str(), (&f.rel_path, *line, *col));
                }
            }
            if !again.is_empty() {
                result.insert(f.rel_path.clone(), again);
            }
        }
    }
    result
}

fn spec_extract_directive<'a>(content: &'a str, directive: &str) -> Vec<&'a str> {
    let opening = format!("{directive}(");
    let mut found = Vec::new();
    for (at, _) in content.match_indices(&opening) {
        if content[..at].ends_with(|c: char| c.is_alphanumeric() || c == '_') {
            continue;
        }
        let rest = &content[at + opening.len()..];
        let mut open = 0;
        let mut quote = None;
        for (i, c) in rest.char_indices() {
            match quote {
                Some(q) => {
                    if c == q {
                        quote = None;
                    }
                }
                None => {
                    if c == '"' || c == '\'' {
                        quote = Some(c);
                    } else if c == '(' {
                        open += 1;
                    } else if c == ')' {
                        if open == 0 {
                            found.push(&rest[..i]);
                            break;
                        }
                        open -= 1;
                    }
                }
            }
        }
    }
    found
}

fn spec_strip_comment(line: &str) -> &str {
    for (at, _) in line.match_indices('#') {
        if line[..at].matches(['"', '\'']).count() % 2 == 0 {
            return &line[..at];
        }
    }
    line
}

fn spec_unquoted(x: &str) -> &str {
    x.trim().trim_matches('"').trim_matches('\'')
}

pub fn spec_parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
    let text: String = content.lines().map(strip_comment).collect::<Vec<_>>().join("\n");
    let mut exports = HashSet::new();
    for inner in extract_directive(&text, "export") {
        for name in inner.split(',') {
            if !spec_unquoted(name).is_empty() {
                exports.insert(spec_unquoted(name).to_string());
            }
        }
    }
    for inner in extract_directive(&text, "exportPattern") {
        if let Ok(re) = Regex::new(spec_unquoted(inner)) {
            for &name in all_names {
                if re.is_match(name) {
                    exports.insert(name.to_string());
                }
            }
        }
    }
    for inner in extract_directive(&text, "S3method") {
        let parts: Vec<&str> = inner.splitn(4, ',').collect();
        if parts.len() >= 3 {
            if !spec_unquoted(parts[2]).is_empty() {
                exports.insert(spec_unquoted(parts[2]).to_string());
            }
        } else if parts.len() == 2 {
            let generic = match spec_unquoted(parts[0]).rsplit_once("::") {
                Some((_, g)) => g,
                None => spec_unquoted(parts[0]),
            };
            exports.insert(format!("{generic}.{}", spec_unquoted(parts[1])));
        }
    }
    for inner in extract_directive(&text, "exportMethods") {
        for name in inner.split(',') {
            if !spec_unquoted(name).is_empty() {
                exports.insert(spec_unquoted(name).to_string());
            }
        }
    }
    for inner in extract_directive(&text, "exportClasses") {
        for name in inner.split(',') {
            if !spec_unquoted(name).is_empty() {
                exports.insert(spec_unquoted(name).to_string());
            }
        }
    }
    exports
}

fn spec_scope_dir_from_path(rel_path: &Path) -> String {
    let parts: Vec<String> = rel_path.components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
    for (i, part) in parts.iter().enumerate() {
        if part == "tests" {
            return "tests/".to_string();
        }
        if part == "inst" {
            if let Some(next) = parts.get(i + 1) {
                if next == "tinytest" || next == "tests" {
                    return format!("inst/{next}/");
                }
            }
        }
    }
    "tests/".to_string()
}

pub(crate) fn spec_compute_unused_from_shared(
    shared_data: &[SharedFileData],
    options: &crate::rule_options::unused_function::ResolvedUnusedFunctionOptions,
    namespace_contents: &HashMap<PathBuf, String>,
) -> HashMap<PathBuf, Vec<(String, TextRange, String)>> {
    let mut packages: HashMap<&str, Vec<&SharedFileData>> = HashMap::new();
    for f in shared_data {
        packages.entry(&f.root_key).or_default().push(f);
    }
    let mut result: HashMap<PathBuf, Vec<(String, TextRange, String)>> = HashMap::new();
    for (_, files) in packages {
        let own: Vec<&&SharedFileData> = files.iter().filter(|f| f.scope == FileScope::R).collect();
        let elsewhere: Vec<&&SharedFileData> = files.iter().filter(|f| f.scope != FileScope::R).collect();
        let tests: Vec<&&SharedFileData> = files.iter().filter(|f| f.scope == FileScope::Tests).collect();
        let inst: Vec<&&SharedFileData> = files.iter().filter(|f| f.scope == FileScope::Inst).collect();

        // a package without R files or NAMESPACE is left alone
        let defined: Vec<String> = own.iter().flat_map(|f| f.assignments.iter().map(|(name, _, _, _)| name.clone())).collect();
        let names: Vec<&str> = defined.iter().map(|s| s.as_str()).collect();
        let namespace = match own.first() {
            Some(f) => match namespace_contents.get(&f.package_root) {
                Some(n) => n,
                None => continue,
            },
            None => continue,
        };
        let exports = parse_namespace_exports(namespace, &names);

        let mut occurrences: HashMap<&str, usize> = HashMap::new();
        for f in &own {
            for (name, n) in &f.symbol_counts {
                *occurrences.entry(name.as_str()).or_insert(0) += n;
            }
        }
        let mut definitions: HashMap<&str, usize> = HashMap::new();
        for f in &own {
            for (name, _, _, _) in &f.assignments {
                *definitions.entry(name.as_str()).or_insert(0) += 1;
            }
        }
        let used_elsewhere: HashSet<&str> = elsewhere.iter().flat_map(|f| f.symbol_counts.keys().map(|s| s.as_str())).collect();
        let symbols: HashSet<&str> = occurrences.keys().copied().collect();
        let hooks: HashSet<&str> = HashSet::from([".onLoad", "on_load", ".onAttach", ".onDetach", ".onUnload", ".Last.lib", ".First.lib"]);

        for f in &own {
            let mut unused: Vec<(String, TextRange, String)> = Vec::new();
            for (name, range, line, col) in &f.assignments {
                if exports.contains(name) || hooks.contains(name.as_str()) || options.is_skipped(name) {
                    continue;
                }
                // possibly an S3 method of a generic that is used here
                if name.contains('.') && name.match_indices('.').any(|(at, _)| symbols.contains(&name[..at])) {
                    continue;
                }
                let seen = occurrences.get(name.as_str()).copied().unwrap_or(0);
                let own_definitions = definitions.get(name.as_str()).copied().unwrap_or(0);
                if seen <= own_definitions && !used_elsewhere.contains(name.as_str()) {
                    unused.push((name.clone(), *range, format!("Defined at {path}:{line}:{col} but never called", path = f.rel_path.display())));
                }
            }
            if !unused.is_empty() {
                result.insert(f.rel_path.clone(), unused);
            }
        }

        for group in [&tests, &inst] {
            if group.is_empty() {
                continue;
            }
            let mut seen_in: HashMap<&str, usize> = HashMap::new();
            for f in group {
                for (name, n) in &f.symbol_counts {
                    *seen_in.entry(name.as_str()).or_insert(0) += n;
                }
            }
            let mut defined_in: HashMap<&str, usize> = HashMap::new();
            for f in group {
                for (name, _, _, _) in &f.assignments {
                    *defined_in.entry(name.as_str()).or_insert(0) += 1;
                }
            }
            for f in group {
                let mut unused: Vec<(String, TextRange, String)> = Vec::new();
                for (name, range, line, col) in &f.assignments {
                    let seen = seen_in.get(name.as_str()).copied().unwrap_or(0);
                    let own_definitions = defined_in.get(name.as_str()).copied().unwrap_or(0);
                    if !options.is_skipped(name) && seen <= own_definitions {
                        let scope = scope_dir_from_path(&f.rel_path);
                        unused.push((
                            name.clone(),
                            *range,
                            format!("Defined at {path}:{line}:{col} but never called in {scope}", path = f.rel_path.display()),
                        ));
                    }
                }
                if !unused.is_empty() {
                    result.entry(f.rel_path.clone()).or_default().extend(unused);
                }
            }
        }
    }
    result
}
