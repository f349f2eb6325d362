from ..core import check
from ..term import mk, field, eq, subterms, N
from ..eff import who_may, WRITES

CK = 'jarl-core/src/check.rs'
LINT = {'lint_only', 'lint_fix', 'relativize_path', 'get_checks', 'has_rmd_extension', 'check_path', 'compute_package_analysis', 'check_version_control', 'apply_fixes'}
GETCK = LINT | {'check_expression', 'check_document', 'compute_lints_location', 'find_new_lines_from_content', 'get_checks_rmd', 'SuppressionManager::from_node', 'Checker::new'}


def pipeline(c):
    c.equiv(CK, 'check', 'spec_core_check', opaque=LINT)
    c.equiv(CK, 'check_path', 'spec_check_path', opaque=LINT)
    c.equiv(CK, 'lint_only', 'spec_lint_only', opaque=LINT, effects={'write'})
    c.equiv(CK, 'lint_fix', 'spec_lint_fix', opaque=LINT, effects={'write'})


@check('C10', 'effect analysis (who may write, closed over the call graph) plus gated value numbering of the lint/fix drivers: the sequence of writes (path and content) is compared with references on every path')
def c10(c):
    pipeline(c)
    c.equiv(CK, 'get_checks', 'spec_get_checks', opaque=GETCK)
    who_may(c, 'writes', WRITES, {'lint_fix', 'add_jarl_ignore_comments', 'JarlExtension::language_server_binary'},
            'writes to the file system or starts a process outside the fixer and the suppression writer')


def vcs_first(c):
    """no file is visited while fixing unless the version-control check succeeded"""
    st = c.sites(CK, 'check', opaque=LINT)
    if not st:
        return
    for flag in ('apply_fixes', 'apply_unsafe_fixes'):
        for x in st:
            if x.name not in ('check_path', 'lint_fix', 'write'):
                continue
            vcs = [a for a in subterms(x.gate) if a.op == 'is' and any(t.op == 'app' and t.a[0] == 'f:check_version_control' for t in subterms(a))]
            facts = [(field(c.arg(0), flag), True), (eq(mk('len', field(c.arg(0), 'paths')), N(0)), False)]
            facts += [(a, a.a[1] == 'Err') for a in vcs]
            c.only_when('version control before %s' % flag, [x], lambda x: True, facts, 'files are rewritten although the version-control check did not pass')
