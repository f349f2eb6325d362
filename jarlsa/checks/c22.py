import os, re
from .. import attrs
from ..core import check, load
from ..src import REPO, walk, AnalysisError

FS = 'jarl-core/src/fs.rs'
TO = 'jarl-core/src/toml.rs'
DI = 'jarl-core/src/discovery.rs'


def check_command(c, effects=()):
    """every discovered path reaches the analysis, grouped by the configuration that governs it"""
    O = {'check', 'hide_unused_function_if_needed', 'add_jarl_ignore_comments', 'build_config', 'discover_r_file_paths', 'discover_settings', 'get_user_config_dir',
         'print_statistics', 'print_summary', 'print_notes', 'print_warnings', 'print_errors', 'emit'}
    c.equiv('jarl/src/commands/check.rs', 'check', 'spec_check', opaque=O, effects={'check'})


@check('C22', 'gated value numbering of extension tests, configuration look-up and file discovery compared with references on every path; default excludes compared with the documentation')
def c22(c):
    for f in ('is_r_extension', 'is_rmd_extension', 'has_r_extension', 'has_rmd_extension', 'normalize_path', 'relativize_path'):
        c.equiv(FS, f, 'spec_' + f)
    c.equiv(TO, 'find_jarl_toml_in_directory', 'spec_find_jarl_toml_in_directory')
    c.equiv(TO, 'find_jarl_toml', 'spec_find_jarl_toml', opaque={'find_jarl_toml_in_directory'})
    c.equiv(TO, 'parse_jarl_toml', 'spec_parse_jarl_toml')
    c.equiv(DI, 'parse_settings', 'spec_parse_settings', opaque={'parse_jarl_toml', 'TomlOptions::into_settings'})
    c.equiv(DI, 'FilesVisitor::visit', 'FilesVisitor::spec_visit', opaque={'has_r_extension', 'has_rmd_extension'})
    O = {'find_jarl_toml_in_directory', 'parse_settings', 'normalize_path', 'get_user_config_dir'}
    c.equiv(DI, 'discover_settings', 'spec_discover_settings', opaque=O | {'discover_nested_settings'})
    c.equiv(DI, 'discover_nested_settings', 'spec_discover_nested_settings', opaque=O, transparent={'threads'})
    c.equiv(DI, 'discover_r_file_paths', 'spec_discover_r_file_paths', opaque=O | {'FilesState::finish', 'FilesState::new', 'FilesVisitorBuilder::new'}, effects={'.visit'}, transparent={'threads'}, vocab={'app:path_strip_prefix'})
    check_command(c)
    # the documented default excludes
    doc = open(os.path.join(REPO, 'docs', 'config.md'), encoding='utf-8').read()
    m = re.search(r'default exclude patterns is:\n\n((?:\* `[^`]+`\n)+)', doc)
    k = [x for x in load().consts.get('DEFAULT_EXCLUDE_PATTERNS', []) if x[1].endswith(DI)]
    if not m:
        raise AnalysisError('docs/config.md: the list of default excludes was not found')
    want = sorted(re.findall('`([^`]+)`', m.group(1)))
    if len(k) != 1:
        c.undecided('default excludes', 'DEFAULT_EXCLUDE_PATTERNS was renamed')
    else:
        got = sorted(n['v']['v'] for n in walk(k[0][2]) if n.get('k') == 'lit' and n['v']['t'] == 'str')
        c.count('default exclude patterns', len(got))
        if got != want:
            c.bad('default-excludes', k[0][1] + ' DEFAULT_EXCLUDE_PATTERNS', 'the default excludes %s are not the documented ones %s' % (got, want))
        else:
            c.ok('default excludes', '%d patterns' % len(got))
    attrs.options(c, 'option', {'no_default_exclude': ('no-default-exclude', False)})
    c.equiv(DI, 'FilesVisitor::drop', 'FilesVisitor::spec_drop')
    c.equiv(DI, 'FilesState::finish', 'FilesState::spec_finish')
    c.equiv(DI, 'FilesVisitorBuilder::build', 'FilesVisitorBuilder::spec_build')
