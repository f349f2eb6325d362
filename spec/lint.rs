// Reference for linting in the editor.  Analysed, never compiled or run.
fn spec_run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInternalOutput> {
    let Some(path) = file_path else {
        return Ok(LintInternalOutput { diagnostics: Vec::new(), unused_fn_hidden_count: 0 });
    };
    if path.to_str().is_none() {
        return Ok(LintInternalOutput { diagnostics: Vec::new(), unused_fn_hidden_count: 0 });
    }

    // the configuration discovered for the file, as for `jarl check <file>`
    let mut resolver = PathResolver::new(Settings::default());
    for found in discover_settings(&vec![path.to_string_lossy().to_string()])? {
        resolver.add(&found.directory, found.settings);
    }
    if should_exclude_file_based_on_settings(path, &resolver) {
        return Ok(LintInternalOutput { diagnostics: Vec::new(), unused_fn_hidden_count: 0 });
    }

    let args = ArgsConfig {
        files: vec![path.to_path_buf()],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: "".to_string(),
        extend_select: "".to_string(),
        ignore: "".to_string(),
        min_r_version: None,
        allow_dirty: false,
        allow_no_vcs: false,
        assignment: None,
    };
    let config = build_config(&args, resolver.items().first().map(|i| i.value()), vec![path.to_path_buf()])?;

    let pkg = match collect_sibling_r_files(path) {
        Some(files) => compute_package_analysis(&files, &config),
        None => Default::default(),
    };
    let mut diagnostics = get_checks(content, &PathBuf::from(relativize_path(path)), &config, &pkg)?;

    let explicit = resolver.items().iter().any(|i| {
        i.value().linter.select.iter().flatten().any(|s| s == "unused_function")
            || i.value().linter.extend_select.iter().flatten().any(|s| s == "unused_function")
    });
    let threshold = resolver.items().iter().map(|i| i.value().linter.rule_options.unused_function.threshold_ignore).min().unwrap_or(50);
    let total: usize = pkg.unused_functions.values().map(|v| v.len()).sum();
    let mut hidden = 0;
    if !explicit && total > threshold {
        diagnostics.retain(|d| d.message.name != "unused_function");
        hidden = total;
    }
    Ok(LintInternalOutput { diagnostics, unused_fn_hidden_count: hidden })
}

fn spec_collect_sibling_r_files(file_path: &Path) -> Option<Vec<PathBuf>> {
    if is_in_r_package(file_path) != Some(true) {
        return None;
    }
    let Some(dir) = file_path.parent() else {
        return None;
    };
    let Ok(entries) = std::fs::read_dir(dir) else {
        return None;
    };
    let mut files = Vec::new();
    for entry in entries {
        if let Ok(entry) = entry {
            if has_r_extension(&entry.path()) {
                files.push(entry.path());
            }
        }
    }
    Some(files)
}

fn spec_should_exclude_file_based_on_settings(file_path: &Path, resolver: &PathResolver<Settings>) -> bool {
    if let Some(item) = resolver.items().first() {
        is_excluded_by_settings(file_path, item.path(), item.value())
    } else {
        DEFAULT_EXCLUDE_PATTERNS.iter().any(|p| matches_pattern(&file_path.to_string_lossy(), p))
    }
}

fn spec_should_exclude_file(file_path: &Path, patterns: &[&str]) -> bool {
    patterns.iter().any(|p| matches_pattern(&file_path.to_string_lossy(), p))
}

fn spec_matches_pattern(path: &str, pattern: &str) -> bool {
    let slashed = path.replace('\\', "/");
    if pattern.ends_with('/') {
        return slashed.split('/').any(|c| c == pattern.trim_end_matches('/'));
    }
    if !pattern.contains('*') {
        return match slashed.split('/').next_back() {
            Some(f) => f == pattern,
            None => false,
        };
    }
    let filename = slashed.split('/').next_back().unwrap_or(&slashed);
    let parts: Vec<&str> = pattern.split('*').collect();
    if parts.is_empty() || !filename.starts_with(parts[0]) {
        return false;
    }
    if parts.len() > 1 && !filename.ends_with(parts[parts.len() - 1]) {
        return false;
    }
    let mut pos = 0;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            pos = part.len();
        } else {
            match filename[pos..].find(part) {
                Some(at) => pos += at + part.len(),
                None => return false,
            }
        }
    }
    true
}

fn spec_is_excluded_by_settings(path: &Path, root: &Path, settings: &Settings) -> bool {
    let path = fs::normalize_path(path);

    let mut patterns: Vec<&str> = Vec::new();
    if let Some(own) = &settings.linter.exclude {
        for p in own {
            patterns.push(p.as_str());
        }
    }
    if settings.linter.default_exclude != Some(false) {
        for p in DEFAULT_EXCLUDE_PATTERNS {
            patterns.push(*p);
        }
    }

    if matches_exclude_patterns(&path, false, root, &patterns) {
        return true;
    }
    let below = path.strip_prefix(root).unwrap_or(path.as_path());
    if below.ancestors().skip(1).any(|d| !d.as_os_str().is_empty() && matches_exclude_patterns(d, true, root, &patterns)) {
        return true;
    }
    match &settings.linter.include {
        Some(include) => !include.is_empty() && !matches_include_patterns(&path, root, include),
        None => false,
    }
}

fn spec_matches_exclude_patterns<S: AsRef<str>>(path: &Path, is_dir: bool, root: &Path, patterns: &[S]) -> bool {
    if patterns.is_empty() {
        return false;
    }
    let mut builder = ignore::overrides::OverrideBuilder::new(root);
    for p in patterns {
        let _ = builder.add(&format!("!{}", p.as_ref()));
    }
    match builder.build() {
        Ok(overrides) => matches!(overrides.matched(path.strip_prefix(root).unwrap_or(path), is_dir), ignore::Match::Ignore(_)),
        Err(_) => false,
    }
}

fn spec_matches_include_patterns(path: &Path, root: &Path, patterns: &[String]) -> bool {
    let mut builder = ignore::overrides::OverrideBuilder::new(root);
    for p in patterns {
        if p.ends_with('/') {
            let _ = builder.add(&format!("{}**", p));
        } else {
            let _ = builder.add(&p.clone());
        }
    }
    match builder.build() {
        Ok(overrides) => matches!(overrides.matched(path.strip_prefix(root).unwrap_or(path), false), ignore::Match::Whitelist(_)),
        Err(_) => true,
    }
}

fn spec_hide_unused_function_if_needed(all_diagnostics: &mut Vec<(String, Vec<Diagnostic>)>, args: &CheckCommand, resolver: &PathResolver<Settings>) -> (bool, usize) {
    let on_cli = args.select.split(',').any(|s| s.trim() == "unused_function") || args.extend_select.split(',').any(|s| s.trim() == "unused_function");
    let in_toml = resolver.items().iter().any(|i| {
        i.value().linter.select.iter().flatten().any(|s| s == "unused_function")
            || i.value().linter.extend_select.iter().flatten().any(|s| s == "unused_function")
    });
    let threshold = resolver.items().iter().map(|i| i.value().linter.rule_options.unused_function.threshold_ignore).min().unwrap_or(50);
    let mut n = 0;
    for (_, ds) in all_diagnostics.iter() {
        for d in ds {
            if d.message.name == "unused_function" {
                n += 1;
            }
        }
    }
    let hide = !(on_cli || in_toml) && n > threshold;
    if hide {
        for (_, ds) in all_diagnostics.iter_mut() {
            ds.retain(|d| d.message.name != "unused_function");
        }
        all_diagnostics.retain(|(_, ds)| !ds.is_empty());
    }
    (hide, n)
}
