// Reference for rule selection and fix consent.  Analysed, never compiled or run.

/// `ALL` is every rule, a group name all its rules, anything else is taken as a rule name (surrounding blanks ignored)
fn spec_expand(names: &Vec<&str>, all: &[Rule]) -> Vec<String> {
    let mut out = Vec::new();
    for name in names.iter() {
        let n = name.trim();
        if n == "ALL" {
            for r in all.iter() {
                out.push(r.name().to_string());
            }
            continue;
        }
        if Category::ALL.iter().any(|c| c.as_str() == n) {
            if let Ok(cat) = n.parse::<Category>() {
                for r in all.iter() {
                    if r.has_category(cat) {
                        out.push(r.name().to_string());
                    }
                }
            }
        } else {
            out.push(n.to_string());
        }
    }
    out
}

/// the names that are not rules
fn spec_invalid(all: &[Rule], names: &[String]) -> Option<Vec<String>> {
    let mut bad = Vec::new();
    for name in names.iter() {
        let n = name.trim();
        if n.is_empty() {
            bad.push(format!("\"{name}\" (empty or whitespace-only not allowed)"));
        } else if !all.iter().any(|r| r.name() == n) {
            bad.push(name.clone());
        }
    }
    if bad.is_empty() { None } else { Some(bad) }
}

fn spec_resolve(names: Vec<&str>) -> Result<HashSet<String>> {
    let all = Rule::all();
    let expanded = replace_group_rules(&names, all);
    if let Some(bad) = get_invalid_rules(all, &expanded) {
        return Err(anyhow::anyhow!("unknown rules"));
    }
    Ok(all.iter().filter(|r| expanded.iter().any(|n| n == r.name())).map(|r| r.name().to_string()).collect::<HashSet<String>>())
}

pub fn spec_parse_rules_cli(select: &str, extend_select: &str, ignore: &str) -> Result<RuleSelection> {
    let selected = if select.is_empty() { None } else { Some(spec_resolve(select.split(",").collect())?) };
    let extended = if extend_select.is_empty() { None } else { Some(spec_resolve(extend_select.split(",").collect())?) };
    let ignored = if ignore.is_empty() { HashSet::new() } else { spec_resolve(ignore.split(",").collect())? };
    Ok(RuleSelection { selected, extended, ignored })
}

pub fn spec_parse_rules_toml(toml: Option<&Settings>) -> Result<RuleSelection> {
    let s = match toml {
        Some(s) => s,
        None => return Ok(RuleSelection { selected: None, extended: None, ignored: HashSet::new() }),
    };
    let selected = match &s.linter.select {
        Some(v) => Some(spec_resolve(v.iter().map(|x| x.as_str()).collect())?),
        None => None,
    };
    let extended = match &s.linter.extend_select {
        Some(v) => Some(spec_resolve(v.iter().map(|x| x.as_str()).collect())?),
        None => None,
    };
    let ignored = match &s.linter.ignore {
        Some(v) => spec_resolve(v.iter().map(|x| x.as_str()).collect())?,
        None => HashSet::new(),
    };
    Ok(RuleSelection { selected, extended, ignored })
}

pub fn spec_parse_fixable_toml(toml: Option<&Settings>) -> Result<(Option<HashSet<String>>, HashSet<String>)> {
    let s = match toml {
        Some(s) => s,
        None => return Ok((None, HashSet::new())),
    };
    let fixable = match &s.linter.fixable {
        Some(v) => Some(spec_resolve(v.iter().map(|x| x.as_str()).collect())?),
        None => None,
    };
    let unfixable = match &s.linter.unfixable {
        Some(v) => spec_resolve(v.iter().map(|x| x.as_str()).collect())?,
        None => HashSet::new(),
    };
    Ok((fixable, unfixable))
}

/// command line before configuration file before defaults; both ignore lists always win
fn spec_reconcile_rules(cli: RuleSelection, toml: RuleSelection) -> Result<RuleSet> {
    let chosen: HashSet<String> = match (cli.selected, toml.selected) {
        (Some(s), _) => s,
        (None, Some(s)) => s,
        (None, None) => all_rules_enabled_by_default().into_iter().collect(),
    };
    let extra: HashSet<String> = match (cli.extended, toml.extended) {
        (Some(s), _) => s,
        (None, Some(s)) => s,
        (None, None) => HashSet::new(),
    };
    Ok(Rule::all()
        .iter()
        .filter(|r| {
            let n = r.name();
            (chosen.contains(n) || extra.contains(n)) && !cli.ignored.contains(n) && !toml.ignored.contains(n)
        })
        .collect::<RuleSet>())
}

/// fixing is requested by any of the three options; unsafe fixes only by --unsafe-fixes
pub fn spec_build_config(args: &ArgsConfig, toml: Option<&Settings>, paths: Vec<PathBuf>) -> Result<Config> {
    let version = determine_minimum_r_version(args, &paths)?;
    let cli = parse_rules_cli(&args.select, &args.extend_select, &args.ignore)?;
    let file = parse_rules_toml(toml)?;
    let reconciled = reconcile_rules(cli, file)?;
    let rules = filter_rules_by_version(&reconciled, version);
    let (fixable, unfixable) = parse_fixable_toml(toml)?;
    let fixing = args.fix || args.fix_only;
    let rules_to_apply = if args.fix_only {
        rules
            .iter()
            .filter(|r| (r.has_safe_fix() || (r.has_unsafe_fix() && args.unsafe_fixes)) && !r.has_no_fix())
            .collect::<RuleSet>()
    } else if args.unsafe_fixes {
        rules.iter().filter(|r| r.has_no_fix() || r.has_safe_fix() || r.has_unsafe_fix()).collect::<RuleSet>()
    } else if args.fix {
        rules.iter().filter(|r| r.has_no_fix() || r.has_safe_fix()).collect::<RuleSet>()
    } else {
        rules.clone()
    };
    let mut options = match toml {
        Some(s) => s.linter.rule_options.clone(),
        None => ResolvedRuleOptions::default(),
    };
    if let Some(a) = &args.assignment {
        options.assignment = parse_assignment_cli(a)?;
    }
    Ok(Config {
        paths,
        rules,
        rules_to_apply,
        apply_fixes: fixing,
        apply_unsafe_fixes: args.unsafe_fixes,
        minimum_r_version: version,
        allow_dirty: args.allow_dirty,
        allow_no_vcs: args.allow_no_vcs,
        unfixable,
        fixable,
        rule_options: options,
    })
}

fn spec_parse_assignment_cli(value: &str) -> Result<ResolvedAssignmentOptions> {
    if value == "<-" {
        Ok(ResolvedAssignmentOptions { operator: RSyntaxKind::ASSIGN })
    } else if value == "=" {
        Ok(ResolvedAssignmentOptions { operator: RSyntaxKind::EQUAL })
    } else {
        Err(anyhow::anyhow!("invalid"))
    }
}
