// Reference for the R-version gate.  Analysed, never compiled or run.

/// DCF: `Key: value` lines; indented lines continue the previous field, joined by one blank; later fields override.
fn spec_parse_dcf(input: &str) -> HashMap<String, String> {
    let mut fields = HashMap::new();
    let mut key: Option<String> = None;
    let mut value = String::new();
    for line in input.lines() {
        if line.starts_with(char::is_whitespace) {
            value = format!("{}{} ", value, line.trim());
        } else if let Some(i) = line.find(':') {
            if let Some(k) = key {
                fields.insert(k, value.trim().to_string());
            }
            key = Some(line[..i].trim().to_string());
            let v = line[i + 1..].trim();
            value = if v.is_empty() { String::new() } else { format!("{} ", v) };
        }
    }
    if let Some(k) = key {
        fields.insert(k, value.trim().to_string());
    }
    fields
}

pub fn spec_get_depend_r_version(contents: &str) -> anyhow::Result<Vec<String>> {
    let mut out = Vec::new();
    if let Some(deps) = spec_parse_dcf(contents).get("Depends") {
        for dep in deps.split(',') {
            let dep = dep.trim();
            if !dep.starts_with('R') || !dep[1..].trim_start().starts_with('(') {
                continue;
            }
            if let Some(open) = dep.find('(') {
                if let Some(n) = dep[open..].find(')') {
                    let version = dep[open + 1..open + n].replace(">=", "").trim().to_string();
                    if !version.is_empty() {
                        out.push(version);
                    }
                }
            }
        }
    }
    Ok(out)
}

pub fn spec_parse_r_version(v: String) -> Result<(u32, u32, u32)> {
    let parts: Vec<&str> = v.split('.').collect();
    if parts.len() != 2 && parts.len() != 3 {
        return Err(anyhow::anyhow!("format"));
    }
    let major = match parts[0].parse::<u32>() {
        Ok(x) => x,
        Err(_) => return Err(anyhow::anyhow!("major")),
    };
    let minor = match parts[1].parse::<u32>() {
        Ok(x) => x,
        Err(_) => return Err(anyhow::anyhow!("minor")),
    };
    if parts.len() == 2 {
        return Ok((major, minor, 0));
    }
    match parts[2].parse::<u32>() {
        Ok(patch) => Ok((major, minor, patch)),
        Err(_) => Err(anyhow::anyhow!("patch")),
    }
}

/// a rule with a version requirement needs a known version that is at least the required one
pub fn spec_filter_rules_by_version(rules: &RuleSet, known: Option<(u32, u32, u32)>) -> RuleSet {
    rules
        .iter()
        .filter(|r| match (r.minimum_r_version(), known) {
            (None, _) => true,
            (Some(need), Some(have)) => need <= have,
            (Some(_), None) => false,
        })
        .collect::<RuleSet>()
}

/// the command line wins; else the first DESCRIPTION (next to, or in, one of the paths) that states a version
pub fn spec_determine_minimum_r_version(args: &ArgsConfig, paths: &[PathBuf]) -> Result<Option<(u32, u32, u32)>> {
    match &args.min_r_version {
        Some(v) => {
            let v = parse_r_version(v.clone())?;
            return Ok(Some(v));
        }
        None => {}
    }
    for path in paths {
        let desc = if path.is_dir() {
            path.join("DESCRIPTION")
        } else {
            match path.parent() {
                Some(p) => p.join("DESCRIPTION"),
                None => continue,
            }
        };
        if !desc.exists() {
            continue;
        }
        let text = fs::read_to_string(&desc)?;
        if let Ok(versions) = Description::get_depend_r_version(&text) {
            if let Some(v) = versions.first() {
                return Ok(Some(parse_r_version(v.to_string())?));
            }
        }
    }
    Ok(None)
}
