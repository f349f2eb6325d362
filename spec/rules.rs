// Reference for the rule set operations.  Analysed, never compiled or run.

impl RuleSet {
    fn spec_from_iter<I: IntoIterator<Item = Rule>>(iter: I) -> RuleSet {
        RuleSet { rules: iter.into_iter().collect() }
    }
    pub fn spec_empty() -> RuleSet {
        RuleSet { rules: Vec::new() }
    }
    pub fn spec_from_rules(rules: Vec<Rule>) -> RuleSet {
        RuleSet { rules: rules }
    }
    pub fn spec_all() -> RuleSet {
        RuleSet { rules: ALL_RULES.to_vec() }
    }
    pub fn spec_iter(&self) -> impl Iterator<Item = &Rule> {
        self.rules.iter()
    }
    pub fn spec_contains(&self, rule: &Rule) -> bool {
        self.rules.iter().any(|r| r == rule)
    }
    pub fn spec_contains_name(&self, name: &str) -> bool {
        for r in self.rules.iter() {
            if r.name() == name {
                return true;
            }
        }
        false
    }
    pub fn spec_len(&self) -> usize {
        self.rules.len()
    }
    pub fn spec_is_empty(&self) -> bool {
        self.rules.len() == 0
    }
    pub fn spec_filter<F>(self, predicate: F) -> RuleSet
    where
        F: FnMut(&Rule) -> bool,
    {
        RuleSet { rules: self.rules.into_iter().filter(predicate).collect() }
    }
}

impl Rule {
    pub fn spec_by_fix_status(status: FixStatus) -> impl Iterator<Item = Rule> {
        ALL_RULES.iter().copied().filter(move |r| r.fix_status() == status)
    }
    pub fn spec_by_category(category: Category) -> impl Iterator<Item = Rule> {
        ALL_RULES.iter().copied().filter(move |r| r.categories().contains(&category))
    }
    pub fn spec_enabled_by_default() -> impl Iterator<Item = Rule> {
        ALL_RULES.iter().copied().filter(|r| r.default_status() == DefaultStatus::Enabled)
    }
    pub fn spec_disabled_by_default() -> impl Iterator<Item = Rule> {
        ALL_RULES.iter().copied().filter(|r| r.default_status() == DefaultStatus::Disabled)
    }
}

pub fn spec_all_rules_enabled_by_default() -> Vec<String> {
    let mut out = Vec::new();
    for r in Rule::all().iter() {
        if r.default_status() == DefaultStatus::Enabled {
            out.push(r.name().to_string());
        }
    }
    out
}
