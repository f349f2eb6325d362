from ..core import check

Z = 'editors/zed/src/lib.rs'


@check('C26', 'gated value numbering of the extension: the chosen binary, its arguments and the sequence of downloads and deletions are compared with references on every path')
def c26(c):
    c.equiv(Z, 'GithubReleaseDetails::new', 'GithubReleaseDetails::spec_new')
    c.equiv(Z, 'JarlExtension::language_server_binary', 'JarlExtension::spec_language_server_binary',
            effects={'download_file', 'remove_dir_all', 'remove_file', 'remove_dir', 'rename', 'write', 'latest_github_release', 'copy', 'create_dir_all'})
    c.equiv(Z, 'JarlExtension::language_server_command', 'JarlExtension::spec_language_server_command', opaque={'JarlExtension::language_server_binary'})
