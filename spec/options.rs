// Required behaviour of the rule options (docs/config.md).

fn spec_resolve_with_extend(
    base: Option<&Vec<String>>,
    extend: Option<&Vec<String>>,
    defaults: &[&str],
    rule_section: &str,
    field_name: &str,
) -> anyhow::Result<HashSet<String>> {
    match (base, extend) {
        (Some(_), Some(_)) => Err(anyhow::anyhow!("both forms given")),
        (Some(replacing), None) => Ok(replacing.iter().cloned().collect()),
        (None, Some(extra)) => Ok(defaults.iter().map(|s| s.to_string()).chain(extra.iter().cloned()).collect()),
        (None, None) => Ok(defaults.iter().map(|s| s.to_string()).collect()),
    }
}

impl ResolvedDuplicatedArgumentsOptions {
    fn spec_resolve_dup(options: Option<&DuplicatedArgumentsOptions>) -> anyhow::Result<Self> {
        let (base, extend) = match options {
            None => (None, None),
            Some(o) => (o.skipped_functions.as_ref(), o.extend_skipped_functions.as_ref()),
        };
        let skipped_functions = spec_resolve_with_extend(base, extend, &["c", "mutate", "summarize", "transmute"], "", "")?;
        Ok(Self { skipped_functions })
    }
}

impl ResolvedImplicitAssignmentOptions {
    fn spec_resolve_implicit(options: Option<&ImplicitAssignmentOptions>) -> anyhow::Result<Self> {
        let (base, extend) = match options {
            None => (None, None),
            Some(o) => (o.skipped_functions.as_ref(), o.extend_skipped_functions.as_ref()),
        };
        let skipped_functions = spec_resolve_with_extend(
            base,
            extend,
            &["expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"],
            "",
            "",
        )?;
        Ok(Self { skipped_functions })
    }
}

impl ResolvedUnreachableCodeOptions {
    fn spec_resolve_unreachable(options: Option<&UnreachableCodeOptions>) -> anyhow::Result<Self> {
        let (base, extend) = match options {
            None => (None, None),
            Some(o) => (o.stopping_functions.as_ref(), o.extend_stopping_functions.as_ref()),
        };
        let stopping_functions =
            spec_resolve_with_extend(base, extend, &["stop", ".Defunct", "abort", "cli_abort", "q", "quit"], "", "")?;
        Ok(Self { stopping_functions })
    }
}

impl ResolvedUndesirableFunctionOptions {
    fn spec_resolve_undesirable(options: Option<&UndesirableFunctionOptions>) -> anyhow::Result<Self> {
        let (base, extend) = match options {
            None => (None, None),
            Some(o) => (o.functions.as_ref(), o.extend_functions.as_ref()),
        };
        let functions = spec_resolve_with_extend(base, extend, &["browser"], "", "")?;
        Ok(Self { functions })
    }
}

impl ResolvedAssignmentOptions {
    fn spec_resolve_assignment(options: Option<&AssignmentOptions>) -> anyhow::Result<Self> {
        let given = match options {
            None => None,
            Some(o) => o.operator.as_deref(),
        };
        match given {
            None => Ok(Self { operator: RSyntaxKind::ASSIGN }),
            Some(op) => {
                if op == "<-" {
                    Ok(Self { operator: RSyntaxKind::ASSIGN })
                } else if op == "=" {
                    Ok(Self { operator: RSyntaxKind::EQUAL })
                } else {
                    Err(anyhow::anyhow!("invalid operator"))
                }
            }
        }
    }
}

impl ResolvedUnusedFunctionOptions {
    fn spec_resolve_unused(options: Option<&UnusedFunctionOptions>) -> anyhow::Result<Self> {
        let threshold_ignore = match options {
            Some(o) => match o.threshold_ignore {
                Some(n) => n,
                None => 50,
            },
            None => 50,
        };
        let skipped_functions = match options {
            Some(o) => match &o.skipped_functions {
                Some(patterns) => patterns
                    .iter()
                    .map(|p| Regex::new(p).map_err(|e| anyhow::anyhow!("invalid regular expression")))
                    .collect::<anyhow::Result<Vec<_>>>()?,
                None => Vec::new(),
            },
            None => Vec::new(),
        };
        Ok(Self { threshold_ignore, skipped_functions })
    }

    fn spec_is_skipped(&self, name: &str) -> bool {
        self.skipped_functions.iter().any(|re| re.is_match(name))
    }
}

impl ResolvedRuleOptions {
    fn spec_resolve_all(
        assignment: Option<&AssignmentOptions>,
        duplicated_arguments: Option<&DuplicatedArgumentsOptions>,
        implicit_assignment: Option<&ImplicitAssignmentOptions>,
        undesirable_function: Option<&UndesirableFunctionOptions>,
        unreachable_code: Option<&UnreachableCodeOptions>,
        unused_function: Option<&UnusedFunctionOptions>,
    ) -> anyhow::Result<Self> {
        let a = ResolvedAssignmentOptions::resolve(assignment)?;
        let d = ResolvedDuplicatedArgumentsOptions::resolve(duplicated_arguments)?;
        let i = ResolvedImplicitAssignmentOptions::resolve(implicit_assignment)?;
        let f = ResolvedUndesirableFunctionOptions::resolve(undesirable_function)?;
        let c = ResolvedUnreachableCodeOptions::resolve(unreachable_code)?;
        let u = ResolvedUnusedFunctionOptions::resolve(unused_function)?;
        Ok(Self {
            assignment: a,
            duplicated_arguments: d,
            implicit_assignment: i,
            undesirable_function: f,
            unreachable_code: c,
            unused_function: u,
        })
    }
}

impl TomlOptions {
    fn spec_into_settings(self, _root: &Path) -> anyhow::Result<Settings> {
        let l = match self.lint {
            Some(l) => l,
            None => LinterTomlOptions::default(),
        };
        if !l.unknown_fields.is_empty() {
            return Err(anyhow::anyhow!("unknown field"));
        }
        let assignment = match &l.assignment {
            None => None,
            Some(AssignmentConfig::Legacy(s)) => Some(AssignmentOptions { operator: Some(s.clone()) }),
            Some(AssignmentConfig::Options(o)) => Some(o.clone()),
        };
        let legacy = matches!(&l.assignment, Some(AssignmentConfig::Legacy(_)));
        let rule_options = ResolvedRuleOptions::resolve(
            assignment.as_ref(),
            l.duplicated_arguments.as_ref(),
            l.implicit_assignment.as_ref(),
            l.undesirable_function.as_ref(),
            l.unreachable_code.as_ref(),
            l.unused_function.as_ref(),
        )?;
        Ok(Settings {
            linter: LinterSettings {
                select: l.select,
                extend_select: l.extend_select,
                ignore: l.ignore,
                include: l.include,
                exclude: l.exclude,
                default_exclude: l.default_exclude,
                fixable: l.fixable,
                unfixable: l.unfixable,
                deprecated_assignment_syntax: legacy,
                rule_options,
            },
        })
    }
}

impl LinterSettings {
    fn spec_default() -> Self {
        Self {
            select: None,
            extend_select: None,
            ignore: None,
            include: None,
            exclude: None,
            default_exclude: None,
            fixable: None,
            unfixable: None,
            deprecated_assignment_syntax: false,
            rule_options: ResolvedRuleOptions::default(),
        }
    }
}

impl ResolvedRuleOptions {
    /// without configuration every option has its default
    fn spec_default() -> ResolvedRuleOptions {
        ResolvedRuleOptions::resolve(None, None, None, None, None, None).unwrap()
    }
}

impl AssignmentConfigVisitor {
    fn spec_visit_str<E: serde::de::Error>(self, value: &str) -> Result<AssignmentConfig, E> {
        Ok(AssignmentConfig::Legacy(value.to_string()))
    }

    fn spec_visit_map<M: serde::de::MapAccess>(self, map: M) -> Result<AssignmentConfig, M::Error> {
        let opts = AssignmentOptions::deserialize(serde::de::value::MapAccessDeserializer::new(map))?;
        Ok(AssignmentConfig::Options(opts))
    }
}
