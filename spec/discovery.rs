// Required behaviour of file and configuration discovery.

fn spec_has_r_extension(path: &Path) -> bool {
    match path.extension() {
        Some(ext) => match ext.to_str() {
            Some(e) => e == "r" || e == "R",
            None => false,
        },
        None => false,
    }
}

fn spec_is_r_extension(extension: &str) -> bool {
    extension == "r" || extension == "R"
}

fn spec_has_rmd_extension(path: &Path) -> bool {
    match path.extension() {
        Some(ext) => match ext.to_str() {
            Some(e) => e == "rmd" || e == "Rmd" || e == "qmd" || e == "Qmd",
            None => false,
        },
        None => false,
    }
}

fn spec_is_rmd_extension(ext: &str) -> bool {
    ext == "rmd" || ext == "Rmd" || ext == "qmd" || ext == "Qmd"
}

fn spec_normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
    match path.as_ref().absolutize() {
        Ok(absolute) => absolute.to_path_buf(),
        Err(_) => path.as_ref().to_path_buf(),
    }
}

fn spec_relativize_path<P: AsRef<Path>>(path: P) -> String {
    match path.as_ref().strip_prefix(path_absolutize::path_dedot::CWD.as_path()) {
        Ok(relative) => format!("{}", relative.display()),
        Err(_) => format!("{}", path.as_ref().display()),
    }
}

/// the visible file wins over the hidden one; only regular files count
fn spec_find_jarl_toml_in_directory<P: AsRef<Path>>(path: P) -> Option<PathBuf> {
    let visible = path.as_ref().join("jarl.toml");
    let hidden = path.as_ref().join(".jarl.toml");
    if visible.is_file() {
        Some(visible)
    } else if hidden.is_file() {
        Some(hidden)
    } else {
        None
    }
}

/// the closest one
fn spec_find_jarl_toml<P: AsRef<Path>>(path: P) -> Option<PathBuf> {
    for dir in path.as_ref().ancestors() {
        let found = find_jarl_toml_in_directory(dir);
        if found.is_some() {
            return found;
        }
    }
    None
}

fn spec_parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
    match fs::read_to_string(path) {
        Ok(text) => toml::from_str(&text).map_err(|e| ParseTomlError::Deserialize(path.to_path_buf(), e)),
        Err(e) => Err(ParseTomlError::Read(path.to_path_buf(), e)),
    }
}

fn spec_parse_settings(toml: &Path, root_directory: &Path) -> anyhow::Result<Settings> {
    match parse_jarl_toml(toml) {
        Ok(options) => match options.into_settings(root_directory) {
            Ok(s) => Ok(s),
            Err(e) => Err(anyhow::anyhow!("invalid")),
        },
        Err(e) => Err(anyhow::anyhow!("invalid")),
    }
}

impl FilesState {
    fn spec_finish(self) -> DiscoveredFiles {
        self.files.into_inner().unwrap()
    }
}

impl<'state> FilesVisitorBuilder<'state> {
    fn spec_build(&mut self) -> Box<dyn ignore::ParallelVisitor + 'state> {
        Box::new(FilesVisitor { files: vec![], state: self.state })
    }
}

impl FilesVisitor<'_> {
    /// what a thread found is added to what the others found
    fn spec_drop(&mut self) {
        let mut all = self.state.files.lock().unwrap();
        all.append(&mut self.files);
    }
    /// an error is recorded; a file named on the command line is always taken, a discovered one if it has an R or R Markdown extension; the walk goes on
    fn spec_visit(&mut self, result: std::result::Result<DirEntry, ignore::Error>) -> ignore::WalkState {
        match result {
            Err(error) => {
                self.files.push(Err(error));
            }
            Ok(entry) => {
                let is_dir = match entry.file_type() {
                    Some(t) => t.is_dir(),
                    None => true,
                };
                if !is_dir && (entry.depth() == 0 || has_r_extension(entry.path()) || has_rmd_extension(entry.path())) {
                    self.files.push(Ok(entry.into_path()));
                }
            }
        }
        ignore::WalkState::Continue
    }
}

fn spec_discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<DiscoveredSettings>> {
    let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();
    let user = get_user_config_dir();
    let mut visited = FxHashSet::default();
    let mut out = Vec::new();
    for path in paths.iter() {
        let mut has_own = false;
        for dir in path.ancestors() {
            if !visited.insert(dir) {
                break;
            }
            if let Some(toml) = find_jarl_toml_in_directory(dir) {
                let settings = parse_settings(&toml, dir)?;
                out.push(DiscoveredSettings { directory: dir.to_path_buf(), settings, config_path: Some(toml) });
                has_own = true;
                break;
            }
            if let Some(u) = &user {
                if dir == u {
                    break;
                }
            }
        }
        if !has_own {
            if let Some(u) = &user {
                if visited.insert(u.as_path()) {
                    if let Some(toml) = find_jarl_toml_in_directory(u) {
                        let settings = parse_settings(&toml, u)?;
                        out.push(DiscoveredSettings { directory: u.clone(), settings, config_path: Some(toml) });
                    }
                }
            }
        }
    }
    let mut known: FxHashSet<PathBuf> = out.iter().map(|d| d.directory.clone()).collect();
    for path in paths.iter() {
        if path.is_dir() {
            discover_nested_settings(path, &mut known, &mut out)?;
        }
    }
    Ok(out)
}

fn spec_discover_nested_settings(
    root: &Path,
    already_found: &mut FxHashSet<PathBuf>,
    discovered_settings: &mut Vec<DiscoveredSettings>,
) -> anyhow::Result<()> {
    let walker = ignore::WalkBuilder::new(root)
        .hidden(true)
        .parents(true)
        .ignore(false)
        .git_ignore(true)
        .git_global(true)
        .git_exclude(true)
        .build();
    for result in walker {
        if let Ok(entry) = result {
            let dir = entry.path();
            let is_dir = match entry.file_type() {
                Some(t) => t.is_dir(),
                None => false,
            };
            if dir != root && is_dir && !already_found.contains(dir) {
                if let Some(toml) = find_jarl_toml_in_directory(dir) {
                    already_found.insert(dir.to_path_buf());
                    let settings = parse_settings(&toml, dir)?;
                    discovered_settings.push(DiscoveredSettings { directory: dir.to_path_buf(), settings, config_path: Some(toml) });
                }
            }
        }
    }
    Ok(())
}

fn spec_discover_r_file_paths<P: AsRef<Path>>(
    paths: &[P],
    resolver: &PathResolver<Settings>,
    use_linter_settings: bool,
    no_default_exclude: bool,
) -> DiscoveredFiles {
    let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();
    if paths.is_empty() {
        return Vec::new();
    }
    let mut builder = ignore::WalkBuilder::new(&paths[0]);
    for path in &paths[1..] {
        builder.add(path);
    }
    builder.hidden(true);
    builder.parents(true);
    builder.ignore(false);
    builder.git_ignore(true);
    builder.git_global(true);
    builder.git_exclude(true);
    if use_linter_settings {
        let mut patterns = Vec::new();
        let mut root = Path::new(".");
        match resolver.items().first() {
            Some(item) => {
                root = item.path();
                if let Some(own) = &item.value().linter.exclude {
                    for p in own.iter() {
                        patterns.push(p.as_str());
                    }
                }
                if item.value().linter.default_exclude.unwrap_or(true) {
                    patterns.extend([".git/", "renv/", "revdep/", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-*.R"]);
                }
            }
            None => {
                if !no_default_exclude {
                    patterns.extend([".git/", "renv/", "revdep/", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-*.R"]);
                }
            }
        }
        if !patterns.is_empty() {
            let mut over = ignore::overrides::OverrideBuilder::new(root);
            for p in patterns {
                over.add(&format!("!{p}"));
            }
            if let Ok(o) = over.build() {
                builder.overrides(o);
            }
        }
    }
    builder.threads(std::thread::available_parallelism().map_or(1, std::num::NonZeroUsize::get).min(12));
    let walker = builder.build_parallel();
    let state = FilesState::new();
    let mut visitors = FilesVisitorBuilder::new(&state);
    walker.visit(&mut visitors);
    let mut files = state.finish();
    let mut seen: FxHashSet<PathBuf> = FxHashSet::default();
    files.retain(|f| match f {
        Err(_) => true,
        Ok(path) => seen.insert(path.clone()),
    });
    if use_linter_settings {
        files.retain(|f| match f {
            Err(_) => true,
            Ok(path) => match resolver.resolve(path) {
                None => true,
                Some(item) => !spec_excluded(path, item.path(), &item.value().linter.exclude) && spec_included(path, item.path(), &item.value().linter.include),
            },
        });
    }
    files
}

fn spec_excluded(path: &PathBuf, root: &Path, exclude: &Option<Vec<String>>) -> bool {
    if let Some(patterns) = exclude {
        if !patterns.is_empty() {
            let mut over = ignore::overrides::OverrideBuilder::new(root);
            for p in patterns.iter() {
                over.add(&format!("!{p}"));
            }
            if let Ok(o) = over.build() {
                return matches!(o.matched(path.strip_prefix(root).unwrap_or(path.as_path()), false), ignore::Match::Ignore(_));
            }
        }
    }
    false
}

fn spec_included(path: &PathBuf, root: &Path, include: &Option<Vec<String>>) -> bool {
    if let Some(patterns) = include {
        if !patterns.is_empty() {
            let mut over = ignore::overrides::OverrideBuilder::new(root);
            for p in patterns.iter() {
                if p.ends_with('/') {
                    over.add(&format!("{p}**"));
                } else {
                    over.add(&p.clone());
                }
            }
            if let Ok(o) = over.build() {
                return matches!(o.matched(path.strip_prefix(root).unwrap_or(path.as_path()), false), ignore::Match::Whitelist(_));
            }
        }
    }
    true
}
