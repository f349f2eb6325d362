// Reference for the per-file pipeline.  Analysed, never compiled or run.

/// nothing is fixed (nor linted with fixing) unless the version-control check passed
pub fn spec_core_check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
    let pkg = compute_package_analysis(&config.paths, &config);
    let fixing = config.apply_fixes || config.apply_unsafe_fixes;
    if fixing && config.paths.len() > 0 {
        let names: Vec<String> = config.paths.iter().map(|p| relativize_path(p)).collect();
        match check_version_control(&names, &config) {
            Ok(_) => {}
            Err(e) => return vec![(match names.first() { Some(n) => n.clone(), None => unreachable!() }, Err(e))],
        }
    }
    config.paths.iter().map(|file| (relativize_path(file), check_path(file, Arc::clone(&config), Arc::clone(&pkg)))).collect()
}

pub fn spec_check_path(path: &PathBuf, config: Arc<Config>, pkg: Arc<PackageAnalysis>) -> Result<Vec<Diagnostic>, anyhow::Error> {
    if !config.apply_fixes && !config.apply_unsafe_fixes {
        return lint_only(path, config, pkg);
    }
    lint_fix(path, config, pkg)
}

/// read the file, lint exactly what was read under the file's own path
pub fn spec_lint_only(path: &PathBuf, config: Arc<Config>, pkg: Arc<PackageAnalysis>) -> Result<Vec<Diagnostic>, anyhow::Error> {
    let p = relativize_path(path);
    let contents = fs::read_to_string(Path::new(&p))?;
    get_checks(&contents, &PathBuf::from(&p), &config, &pkg)
}

/// R Markdown is never fixed; an R file receives its own content with its own fixes, until none was skipped
pub fn spec_lint_fix(path: &PathBuf, config: Arc<Config>, pkg: Arc<PackageAnalysis>) -> Result<Vec<Diagnostic>, anyhow::Error> {
    if crate::fs::has_rmd_extension(path) {
        return lint_only(path, config, pkg);
    }
    let p = relativize_path(path);
    let mut again = true;
    let mut found: Vec<Diagnostic>;
    loop {
        let contents = fs::read_to_string(Path::new(&p))?;
        found = get_checks(&contents, &PathBuf::from(&p), &config, &pkg)?;
        if !again {
            break;
        }
        let (more, text) = apply_fixes(&found, &contents);
        again = more;
        fs::write(&p, text)?;
    }
    Ok(found)
}

/// the diagnostics of one R file: a fix survives only if the rule has one, the lists allow it and no comment would be lost
pub fn spec_get_checks(contents: &str, file: &Path, config: &Config, pkg: &PackageAnalysis) -> Result<Vec<Diagnostic>> {
    if crate::fs::has_rmd_extension(file) {
        return get_checks_rmd(contents, file, config);
    }
    let parsed = air_r_parser::parse(contents, RParserOptions::default());
    if parsed.has_error() {
        return Err(ParseError { filename: file.to_path_buf() }.into());
    }
    let syntax = &parsed.syntax();
    let expressions = &parsed.tree().expressions();
    let suppression = SuppressionManager::from_node(syntax, contents);
    let mut checker = Checker::new(suppression, config.rule_options.clone());
    checker.rule_set = config.rules_to_apply.clone();
    checker.minimum_r_version = config.minimum_r_version;
    let duplicate_assignments = match pkg.duplicate_assignments.get(file) {
        Some(x) => x.clone(),
        None => Vec::new(),
    };
    let unused_functions = match pkg.unused_functions.get(file) {
        Some(x) => x.clone(),
        None => Vec::new(),
    };
    for expr in expressions {
        check_expression(&expr, &mut checker)?;
    }
    check_document(expressions, &mut checker, &duplicate_assignments, &unused_functions)?;
    let rules = checker.rule_set;
    let mut out: Vec<Diagnostic> = Vec::new();
    for d in checker.diagnostics.into_iter() {
        let mut d = d;
        let name = d.message.name.clone();
        let unfixable_rule = rules.iter().any(|r| r.has_no_fix() && r.name() == name);
        let allowed = match &config.fixable {
            Some(s) => s.contains(&name),
            None => true,
        };
        d.filename = file.to_path_buf();
        if unfixable_rule || config.unfixable.contains(&name) || !allowed || d.fix.to_skip {
            d.fix = Fix::empty();
        }
        out.push(d);
    }
    Ok(compute_lints_location(out, &find_new_lines_from_content(contents)))
}

pub fn spec_check_version_control(paths: &[String], config: &Config) -> Result<()> {
    if config.allow_no_vcs {
        return Ok(());
    }
    let mut groups: HashMap<String, Vec<String>> = HashMap::new();
    let mut outside = false;
    for path in paths.iter() {
        if let Ok(repo) = git2::Repository::discover(Path::new(path)) {
            let key = repo.workdir().unwrap_or_else(|| repo.path()).to_str().unwrap_or("").to_string();
            groups.entry(key).or_default().push(path.clone());
        } else {
            outside = true;
        }
    }
    if outside {
        return Err(anyhow::anyhow!("no version control"));
    }
    if config.allow_dirty {
        return Ok(());
    }
    let mut dirty = Vec::new();
    for (root, _) in groups {
        let repo = git2::Repository::discover(Path::new(&root))?;
        let mut opts = git2::StatusOptions::new();
        opts.include_ignored(false);
        opts.include_untracked(true);
        for s in repo.statuses(Some(&mut opts))?.iter() {
            if s.status() != git2::Status::CURRENT {
                dirty.push(String::from_utf8_lossy(s.path_bytes()).to_string());
            }
        }
    }
    if dirty.is_empty() { Ok(()) } else { Err(anyhow::anyhow!("uncommitted changes")) }
}
