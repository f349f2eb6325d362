// Reference for exit statuses, emitters and logging.  Analysed, never compiled or run.
impl ExitStatus {
    fn spec_code(status: ExitStatus) -> ExitCode {
        match status {
            ExitStatus::Success => ExitCode::from(0),
            ExitStatus::Failure => ExitCode::from(1),
            ExitStatus::Error => ExitCode::from(255),
        }
    }
}
impl LogLevel {
    fn spec_tracing_level(self) -> tracing::Level {
        match self {
            LogLevel::Error => tracing::Level::ERROR,
            LogLevel::Warn => tracing::Level::WARN,
            LogLevel::Info => tracing::Level::INFO,
            LogLevel::Debug => tracing::Level::DEBUG,
            LogLevel::Trace => tracing::Level::TRACE,
        }
    }
    fn spec_from_str(value: &str) -> Result<LogLevel, anyhow::Error> {
        match value {
            "error" => Ok(LogLevel::Error),
            "warn" => Ok(LogLevel::Warn),
            "info" => Ok(LogLevel::Info),
            "debug" => Ok(LogLevel::Debug),
            "trace" => Ok(LogLevel::Trace),
            _ => Err(anyhow::anyhow!("x")),
        }
    }
}
fn spec_init_logging(log_level: LogLevel) {
    let level = log_level.spec_tracing_level();
    let filter = filter::Targets::new().with_target("jarl", level).with_target("jarl-core", level);
    let layer = tracing_subscriber::fmt::layer()
        .with_level(true)
        .with_target(false)
        .without_time()
        .with_writer(std::io::stderr)
        .with_filter(filter);
    tracing::subscriber::set_global_default(tracing_subscriber::Registry::default().with(layer)).expect("x");
}
fn spec_run(args: Args) -> anyhow::Result<ExitStatus> {
    match args.command {
        Command::Server(command) => commands::server::server(command),
        Command::Check(command) => {
            logging::init_logging(args.global_options.log_level.unwrap_or_default());
            commands::check::check(command)
        }
    }
}
fn spec_message(d: &Diagnostic) -> String {
    match &d.message.suggestion {
        Some(s) => format!("{} {}", d.message.body, s),
        None => d.message.body.clone(),
    }
}
fn spec_main() -> ExitCode {
    let args = Args::parse();
    match run(args) {
        Ok(status) => status.into(),
        Err(err) => {
            use std::io::Write;
            let mut stderr = std::io::stderr().lock();
            writeln!(stderr, "jarl failed").ok();
            for cause in err.chain() {
                writeln!(stderr, "  Cause: {cause}").ok();
            }
            ExitStatus::Error.into()
        }
    }
}
fn spec_print_errors(errors: &[(String, anyhow::Error)]) {
    for (_p, err) in errors {
        let root = err.chain().last().unwrap();
        if root.is::<jarl_core::error::ParseError>() {
            eprintln!("{}: {}", "Error".red().bold(), root);
        } else {
            eprintln!("{}: {}", "Error".red().bold(), err);
        }
    }
}
impl JsonEmitter {
    fn spec_emit<W: Write>(&self, writer: &mut W, diagnostics: &[&Diagnostic], errors: &[(String, anyhow::Error)]) -> anyhow::Result<()> {
        let mut writer = BufWriter::new(writer);
        let mut json_errors = Vec::new();
        for (path, err) in errors {
            json_errors.push(JsonError { file: path.clone(), error: format!("{:#}", err) });
        }
        let output = JsonOutput { diagnostics: diagnostics.to_vec(), errors: json_errors };
        serde_json::to_writer_pretty(&mut writer, &output)?;
        writer.flush()?;
        Ok(())
    }
}
impl GithubEmitter {
    fn spec_emit<W: Write>(&self, writer: &mut W, diagnostics: &[&Diagnostic], errors: &[(String, anyhow::Error)]) -> anyhow::Result<()> {
        let mut writer = BufWriter::new(writer);
        spec_print_errors(errors);
        for d in diagnostics {
            let loc = match d.location {
                Some(l) => l,
                None => unreachable!("x"),
            };
            let file = d.filename.to_string_lossy();
            let row = loc.row();
            let col = loc.column() + 1;
            write!(writer, "::warning title=Jarl ({}),file={},line={},col={}::{}:{}:{} ", d.message.name, file, row, col, file, row, col)?;
            writeln!(writer, "[{}] {}", d.message.name, spec_message(d))?;
        }
        writer.flush()?;
        Ok(())
    }
}
impl ConciseEmitter {
    fn spec_emit<W: Write>(&self, writer: &mut W, diagnostics: &[&Diagnostic], errors: &[(String, anyhow::Error)]) -> anyhow::Result<()> {
        let mut writer = BufWriter::new(writer);
        if !errors.is_empty() {
            writer.flush()?;
            spec_print_errors(errors);
        }
        for d in diagnostics {
            let loc = match d.location {
                Some(l) => l,
                None => unreachable!("x"),
            };
            let name = if std::env::var("NO_COLOR").is_err() { make_hyperlink(&d.message.name) } else { d.message.name };
            writeln!(writer, "{} [{}:{}] {} {}", relativize_path(d.filename.clone()).white(), loc.row(), loc.column() + 1, name.red(), spec_message(d))?;
        }
        writer.flush()?;
        Ok(())
    }
}
impl FullEmitter {
    fn spec_emit<W: Write>(&self, writer: &mut W, diagnostics: &[&Diagnostic], errors: &[(String, anyhow::Error)]) -> anyhow::Result<()> {
        let mut writer = BufWriter::new(writer);
        let use_colors = std::env::var("NO_COLOR").is_err();
        let renderer = if use_colors { Renderer::styled() } else { Renderer::plain() };
        if !errors.is_empty() {
            writer.flush()?;
            spec_print_errors(errors);
            if !diagnostics.is_empty() {
                eprintln!();
            }
        }
        for d in diagnostics {
            if let Err(err) = fs::read_to_string(&d.filename) {
                writer.flush()?;
                eprintln!("Warning: Could not read source file {}: {}", d.filename.display(), err);
            }
        }
        for d in diagnostics {
            if d.location.is_none() {
                unreachable!("x");
            }
            if let Ok(source) = fs::read_to_string(&d.filename) {
                let path = relativize_path(d.filename.clone());
                let title = if use_colors { make_hyperlink(&d.message.name) } else { d.message.name.clone() };
                let rendered = render_diagnostic(&source, &path, &title, d, &renderer);
                writeln!(writer, "{}\n", rendered)?;
            }
        }
        writer.flush()?;
        Ok(())
    }
}
fn spec_print_statistics(diagnostics: &[&Diagnostic], has_errors: bool, parent_config_path: Option<PathBuf>) -> anyhow::Result<ExitStatus> {
    if diagnostics.is_empty() {
        if has_errors {
            return Ok(ExitStatus::Error);
        }
        return Ok(ExitStatus::Success);
    }
    if has_errors { Ok(ExitStatus::Error) } else { Ok(ExitStatus::Failure) }
}
fn spec_check(args: CheckCommand) -> Result<ExitStatus> {
    let mut resolver = PathResolver::new(Settings::default());
    let mut parent_config_path: Option<PathBuf> = None;
    let cwd = env::current_dir().ok();
    let discovered = discover_settings(&args.files)?;
    let single = discovered.len() == 1;
    for mut ds in discovered {
        if args.no_default_exclude {
            ds.settings.linter.default_exclude = Some(false);
        }
        if single {
            if let (Some(p), Some(cwd)) = (&ds.config_path, &cwd) {
                if let Some(dir) = p.parent() {
                    if dir != cwd {
                        parent_config_path = Some(p.clone());
                    }
                }
            }
        }
        resolver.add(&ds.directory, ds.settings);
    }
    let mut all_errors: Vec<(String, anyhow::Error)> = Vec::new();
    let mut paths = Vec::new();
    for r in discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude) {
        match r {
            Ok(p) => paths.push(p),
            Err(e) => all_errors.push((String::new(), e.into())),
        }
    }
    paths.sort();
    all_errors.sort_by_cached_key(|(_, err)| err.to_string());
    if paths.is_empty() && all_errors.is_empty() {
        if let OutputFormat::Json = args.output_format {
            JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?;
        }
        return Ok(ExitStatus::Success);
    }
    let check_config = ArgsConfig {
        files: args.files.iter().map(|s| s.into()).collect(),
        fix: args.fix,
        unsafe_fixes: args.unsafe_fixes,
        fix_only: args.fix_only,
        select: args.select.clone(),
        extend_select: args.extend_select.clone(),
        ignore: args.ignore.clone(),
        min_r_version: args.min_r_version.clone(),
        allow_dirty: args.allow_dirty,
        allow_no_vcs: args.allow_no_vcs,
        assignment: args.assignment.clone(),
    };
    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
    for path in paths {
        // files without a configuration of their own are governed by the user-level one
        let key = match resolver.resolve(&path) {
            Some(item) => Some(item.path().to_path_buf()),
            None => get_user_config_dir(),
        };
        groups.entry(key).or_default().push(path);
    }
    let mut results = Vec::new();
    for (dir, group) in groups {
        let settings = match dir.as_deref() {
            Some(d) => resolver.items().iter().find(|item| item.path() == d).map(|item| item.value()),
            None => None,
        };
        let config = build_config(&check_config, settings, group)?;
        results.extend(jarl_core::check::check(config));
    }
    let mut all_diagnostics = Vec::new();
    for (path, result) in results {
        match result {
            Ok(d) => {
                if !d.is_empty() {
                    all_diagnostics.push((path, d));
                }
            }
            Err(e) => all_errors.push((path, e)),
        }
    }
    if let Some(reason) = &args.add_jarl_ignore {
        print_errors(&all_errors);
        let status = add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path)?;
        return if all_errors.is_empty() { Ok(status) } else { Ok(ExitStatus::Error) };
    }
    let (hidden, n_hidden) = hide_unused_function_if_needed(&mut all_diagnostics, &args, &resolver);
    let mut flat: Vec<&Diagnostic> = all_diagnostics.iter().flat_map(|(_p, d)| d.iter()).collect();
    flat.sort();
    let failed = !all_errors.is_empty();
    if args.statistics {
        print_errors(&all_errors);
        return print_statistics(&flat, failed, parent_config_path);
    }
    let mut stdout = std::io::stdout();
    match args.output_format {
        OutputFormat::Json => JsonEmitter.emit(&mut stdout, &flat, &all_errors)?,
        OutputFormat::Github => GithubEmitter.emit(&mut stdout, &flat, &all_errors)?,
        OutputFormat::Concise => ConciseEmitter.emit(&mut stdout, &flat, &all_errors)?,
        OutputFormat::Full => FullEmitter.emit(&mut stdout, &flat, &all_errors)?,
    }
    if let OutputFormat::Full | OutputFormat::Concise = args.output_format {
        print_summary(&flat, failed);
        let mut warnings: Vec<String> = Vec::new();
        if args.assignment.is_some() {
            warnings.push("some text".to_string());
        }
        if hidden {
            warnings.push(format!("{n_hidden} hidden"));
        }
        for item in resolver.items() {
            if item.value().linter.deprecated_assignment_syntax {
                warnings.push("some text".to_string());
            }
        }
        // the rules named by the user, each once, in the order of their names
        let mut named: BTreeSet<String> = BTreeSet::new();
        for list in [&args.select, &args.extend_select, &args.ignore] {
            named.extend(list.split(',').map(|s| s.trim()).filter(|s| !s.is_empty()).map(|s| s.to_string()));
        }
        for item in resolver.items() {
            let linter = &item.value().linter;
            for names in [&linter.select, &linter.extend_select, &linter.ignore] {
                if let Some(names) = names {
                    named.extend(names.iter().cloned());
                }
            }
        }
        for name in &named {
            if let Some(rule) = Rule::from_name(name) {
                if let Some(dep) = rule.deprecation() {
                    warnings.push(format!("`{}` since v{}, use {}", name, dep.version, dep.replacement));
                }
            }
        }
        print_warnings(&warnings);
    }
    if failed {
        return Ok(ExitStatus::Error);
    }
    if all_diagnostics.is_empty() {
        return Ok(ExitStatus::Success);
    }
    Ok(ExitStatus::Failure)
}

impl ParseError {
    /// names the file
    fn spec_fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Failed to parse {} due to syntax errors.", self.filename.display())
    }
}

// ---- what a person reads: order, places, counts ----
impl Diagnostic {
    fn spec_order(&self, other: &Diagnostic) -> Ordering {
        self.filename.cmp(&other.filename).then(self.range.cmp(&other.range))
    }
    fn spec_partial_order(&self, other: &Diagnostic) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
fn spec_render_diagnostic(source: &str, origin: &str, title: &str, diagnostic: &Diagnostic, renderer: &Renderer) -> String {
    let start: usize = diagnostic.range.start().into();
    let end: usize = diagnostic.range.end().into();
    let annotation = Level::Warning.span(start..end).label(&diagnostic.message.body);
    let snippet = Snippet::source(source).origin(origin).fold(true).annotation(annotation);
    let message = match &diagnostic.message.suggestion {
        Some(suggestion) => Level::Warning.title(title).snippet(snippet).footer(Level::Help.title(suggestion)),
        None => Level::Warning.title(title).snippet(snippet),
    };
    renderer.render(message).to_string()
}
fn spec_hyperlink(text: &str) -> String {
    format!("\x1b]8;;https://jarl.etiennebacher.com/rules/{}\x1b\\{}\x1b]8;;\x1b\\", text, text)
}
fn spec_print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
    let total = diagnostics.len() as i32;
    if total == 0 {
        if !has_errors {
            print_section_header("Summary");
            println!("All checks passed!");
        }
        return;
    }
    let safe = diagnostics.iter().filter(|d| d.has_safe_fix()).count();
    let hidden = diagnostics.iter().filter(|d| d.has_unsafe_fix()).count();
    println!();
    print_section_header("Summary");
    if total > 1 {
        println!("Found {total} errors.");
    } else {
        println!("Found 1 error.");
    }
    if safe > 0 && hidden == 0 {
        println!("{safe} fixable with the `--fix` option.");
    }
    if safe > 0 && hidden == 1 {
        println!("{safe} fixable with the `--fix` option (1 hidden fix can be enabled with the `--unsafe-fixes` option).");
    }
    if safe > 0 && hidden > 1 {
        println!("{safe} fixable with the `--fix` option ({hidden} hidden fixes can be enabled with the `--unsafe-fixes` option).");
    }
    if safe == 0 && hidden == 1 {
        println!("1 fix is available with the `--fix --unsafe-fixes` option.");
    }
    if safe == 0 && hidden > 1 {
        println!("{hidden} fixes are available with the `--fix --unsafe-fixes` option.");
    }
    let limit = match std::env::var("JARL_N_VIOLATIONS_HINT_STAT") {
        Ok(value) => match value.parse::<i32>() {
            Ok(n) => n,
            Err(_) => 15,
        },
        Err(_) => 15,
    };
    if total > limit {
        println!("More than {limit} errors reported, use `--statistics` to get the count by rule.");
    }
}
fn spec_violation_data<T: Violation>(value: T) -> ViolationData {
    ViolationData {
        name: Violation::name(&value),
        body: Violation::body(&value),
        suggestion: Violation::suggestion(&value),
    }
}
