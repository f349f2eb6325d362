// C02: which analyses each kind of node is offered to
impl Checker {
    fn spec_report(&mut self, diagnostic: Option<Diagnostic>) {
        if let Some(d) = diagnostic {
            self.diagnostics.push(d);
        }
    }
    fn spec_enabled(&mut self, rule: Rule) -> bool {
        self.rule_set.contains(&rule)
    }
    fn spec_checker(suppression: SuppressionManager, rule_options: ResolvedRuleOptions) -> Self {
        Checker { diagnostics: Vec::new(), rule_set: RuleSet { rules: Vec::new() }, minimum_r_version: None, suppression, rule_options }
    }
}
