// Reference for the Zed extension.  Analysed, never compiled or run.
pub enum Os { Mac, Linux, Windows }
pub enum Architecture { Aarch64, X86, X8664 }

impl GithubReleaseDetails {
    fn spec_new(platform: zed_extension_api::Os, arch: zed_extension_api::Architecture, version: String) -> GithubReleaseDetails {
        let cpu = match arch {
            zed::Architecture::Aarch64 => "aarch64",
            zed::Architecture::X86 => "x86",
            zed::Architecture::X8664 => "x86_64",
        };
        match platform {
            zed::Os::Mac => GithubReleaseDetails {
                asset_name: format!("jarl-{cpu}-apple-darwin.tar.gz"),
                downloaded_file_type: zed::DownloadedFileType::GzipTar,
                downloaded_directory: format!("jarl-{version}"),
                downloaded_binary_path: format!("jarl-{version}/jarl-{cpu}-apple-darwin/jarl"),
            },
            zed::Os::Linux => GithubReleaseDetails {
                asset_name: format!("jarl-{cpu}-unknown-linux-gnu.tar.gz"),
                downloaded_file_type: zed::DownloadedFileType::GzipTar,
                downloaded_directory: format!("jarl-{version}"),
                downloaded_binary_path: format!("jarl-{version}/jarl-{cpu}-unknown-linux-gnu/jarl"),
            },
            zed::Os::Windows => GithubReleaseDetails {
                asset_name: format!("jarl-{cpu}-pc-windows-msvc.zip"),
                downloaded_file_type: zed::DownloadedFileType::Zip,
                downloaded_directory: format!("jarl-{version}"),
                downloaded_binary_path: format!("jarl-{version}/jarl.exe"),
            },
        }
    }
}

impl JarlExtension {
    fn spec_language_server_binary(&mut self, language_server_id: &LanguageServerId, worktree: &zed::Worktree) -> Result<JarlBinary> {
        let mut args = None;
        let mut path = None;
        if let Ok(settings) = LspSettings::for_worktree(language_server_id.as_ref(), worktree) {
            if let Some(binary) = settings.binary {
                args = binary.arguments;
                path = binary.path;
            }
        }
        if let Some(path) = path {
            return Ok(JarlBinary { path: path, args: args });
        }
        if let Some(path) = worktree.which("jarl") {
            return Ok(JarlBinary { path: path, args: args });
        }
        if let Some(path) = self.cached_binary_path.clone() {
            if let Ok(stat) = fs::metadata(&path) {
                if stat.is_file() {
                    return Ok(JarlBinary { path: path, args: args });
                }
            }
        }
        let release = zed::latest_github_release("etiennebacher/jarl", zed::GithubReleaseOptions { require_assets: true, pre_release: false })?;
        let (platform, arch) = zed::current_platform();
        let d = GithubReleaseDetails::spec_new(platform, arch, release.version);
        let asset = match release.assets.iter().find(|a| a.name == d.asset_name) {
            Some(a) => a,
            None => return Err("none".to_string()),
        };
        let present = match fs::metadata(&d.downloaded_binary_path) {
            Ok(stat) => stat.is_file(),
            Err(_) => false,
        };
        if !present {
            if let Err(e) = zed::download_file(&asset.download_url, &d.downloaded_directory, d.downloaded_file_type) {
                return Err("x".to_string());
            }
            match fs::read_dir(".") {
                Err(_) => return Err("x".to_string()),
                Ok(entries) => {
                    for entry in entries {
                        match entry {
                            Err(_) => return Err("x".to_string()),
                            Ok(entry) => {
                                if entry.file_name().to_str() != Some(&d.downloaded_directory) {
                                    fs::remove_dir_all(entry.path()).ok();
                                }
                            }
                        }
                    }
                }
            }
        }
        self.cached_binary_path = Some(d.downloaded_binary_path.clone());
        Ok(JarlBinary { path: d.downloaded_binary_path, args: args })
    }

    fn spec_language_server_command(&mut self, language_server_id: &LanguageServerId, worktree: &zed::Worktree) -> Result<zed::Command> {
        let binary = self.language_server_binary(language_server_id, worktree)?;
        let args = match binary.args {
            Some(a) => a,
            None => vec!["server".into()],
        };
        Ok(zed::Command { command: binary.path, args: args, env: vec![] })
    }
}
