from .. import attrs
from ..core import check
from ..term import mk, rewrite, S

J = 'jarl/src/'
OUT = {'write_fmt', 'println', 'eprintln', 'print', 'eprint', 'print_fmt', 'flush', 'to_writer_pretty', 'to_writer'}


def holes(what, t):
    """the wording around the inserted values is free"""
    def f(x):
        if x.op == 'concat':
            return mk('concat', *[y for y in x.a if y.op != 'str'])
    return rewrite(t, f)


@check('C20', 'gated value numbering of exit statuses, emitters, log set-up: the computed status and the exact sequence of writes to the output streams are compared with references on every path')
def c20(c):
    c.equiv(J + 'status.rs', 'ExitCode::from', 'ExitStatus::spec_code')
    c.equiv(J + 'logging.rs', 'LogLevel::tracing_level', 'LogLevel::spec_tracing_level')
    c.equiv(J + 'logging.rs', 'LogLevel::from_str', 'LogLevel::spec_from_str')
    c.equiv(J + 'logging.rs', 'init_logging', 'spec_init_logging', effects={'set_global_default'})
    c.equiv(J + 'lib.rs', 'run', 'spec_run', opaque={'init_logging', 'check', 'server'}, effects={'init_logging', 'check', 'server'})
    c.equiv(J + 'output_format.rs', 'print_errors', 'spec_print_errors', effects=OUT)
    for e in ('JsonEmitter', 'GithubEmitter', 'ConciseEmitter'):
        c.equiv(J + 'output_format.rs', e + '::emit', e + '::spec_emit', effects=OUT, opaque={'relativize_path', 'make_hyperlink'})
    c.equiv(J + 'output_format.rs', 'FullEmitter::emit', 'FullEmitter::spec_emit', effects=OUT, opaque={'relativize_path', 'make_hyperlink', 'render_diagnostic'})
    c.equiv(J + 'statistics.rs', 'print_statistics', 'spec_print_statistics')
    E = {'check', 'add_jarl_ignore_comments', 'print_statistics', 'print_errors', 'emit', 'set_global_default'}
    O = {'check', 'hide_unused_function_if_needed', 'add_jarl_ignore_comments', 'build_config', 'discover_r_file_paths', 'discover_settings', 'get_user_config_dir', 'print_statistics',
         'print_summary', 'print_notes', 'print_warnings', 'print_errors', 'emit'}
    c.equiv(J + 'commands/check.rs', 'check', 'spec_check', effects=E, opaque=O)
    # nothing else is written to the standard output with a machine-readable format
    st = c.sites(J + 'commands/check.rs', 'check', opaque={'hide_unused_function_if_needed', 'add_jarl_ignore_comments', 'build_config', 'discover_r_file_paths',
                                                            'discover_settings', 'get_user_config_dir', 'print_statistics', 'emit', 'check'})
    for v in ('Json', 'Github') if st else ():
        fmt = mk('field', c.arg(0), 'output_format')
        c.only_when('stdout with --output-format %s' % v.lower(), st, lambda x: x.name in ('println', 'print'),
                    [(mk('is', fmt, 'OutputFormat::' + v), True)], 'machine-readable output must not be mixed with text')
    attrs.written(c, 'json', {'Diagnostic': {k: k for k in ('message', 'filename', 'range', 'location', 'fix')}, 'Fix': {k: k for k in ('content', 'start', 'end')},
                             'ViolationData': {k: k for k in ('name', 'body', 'suggestion')}, 'JsonOutput': {k: k for k in ('diagnostics', 'errors')},
                             'JsonError': {k: k for k in ('file', 'error')}, 'Location': {'row': 'row', 'column': 'column'}})
    attrs.options(c, 'option', {'output_format': ('output-format', lambda got, s: 'default' in (got or '') or 'Full' in (got or '') or got == 'full'), 'statistics': ('statistics', False)})
    c.structural_eq('OutputFormat', 'ExitStatus')
    c.impls('ParseError', 'Display', {'fmt': 'ParseError::spec_fmt'}, project=holes)
