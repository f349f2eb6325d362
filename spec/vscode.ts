// What the VS Code extension is required to do; read by jarlsa/ts.py, never executed.
import * as vscode from "vscode";
import * as fs from "fs";
import * as fsx from "fs-extra";
import which from "which";
import path from "path";
import * as lc from "vscode-languageclient/node";
import { default as PQueue } from "p-queue";
import { FileSettingsState } from "./notification/sync-file-settings";
import { registerLogger } from "./output";

const here = path.basename(__dirname);
const root = here === "common" ? path.dirname(path.dirname(__dirname)) : path.dirname(__dirname);
const binaryName = process.platform === "win32" ? "jarl.exe" : "jarl";
const bundledFile = path.join(root, "bundled", "bin", binaryName);

function bundled() {
	return fs.existsSync(bundledFile) ? bundledFile : undefined;
}

async function environment() {
	return await which(binaryName, { nothrow: true });
}

export async function specResolve(strategy, configured) {
	let found = undefined;
	if (!vscode.workspace.isTrusted) {
		found = bundled();
	} else if (strategy === "bundled") {
		found = bundled();
		if (!found) {
			found = await environment();
		}
	} else if (strategy === "environment") {
		found = await environment();
		if (!found) {
			found = bundled();
		}
	} else if (strategy === "path") {
		if (configured && fs.existsSync(configured)) {
			found = configured;
		}
	}
	if (!found) {
		throw new Error("no executable");
	}
	return found;
}

export function specWorkspaceSettings(namespace, workspace) {
	const config = vscode.workspace.getConfiguration(namespace, workspace);
	return {
		executableStrategy: config.get("executableStrategy") ?? "bundled",
		executablePath: config.get("executablePath"),
	};
}

export function specInitializationOptions(namespace) {
	const config = vscode.workspace.getConfiguration(namespace);
	return {
		logLevel: config.inspect("logLevel")?.globalValue || "debug",
		dependencyLogLevels: config.inspect("dependencyLogLevels")?.globalValue,
	};
}

export async function specRoot() {
	const folders = vscode.workspace.workspaceFolders ?? [];
	if (folders.length === 0) {
		return {
			uri: vscode.Uri.file(process.cwd()),
			name: path.basename(process.cwd()),
			index: 0,
		};
	}
	if (folders.length === 1) {
		return folders[0];
	}
	let best = undefined;
	for (const w of folders) {
		if (await fsx.pathExists(w.uri.fsPath)) {
			if (best === undefined || w.uri.fsPath.length < best.uri.fsPath.length) {
				best = w;
			}
		}
	}
	return best === undefined ? folders[0] : best;
}

export class SpecLsp {
	constructor(context) {
		this.channel = vscode.window.createOutputChannel("Jarl Language Server");
		context.subscriptions.push(this.channel, registerLogger(this.channel));
		this.queue = new PQueue({ concurrency: 1 });
		this.client = null;
		this.binary = null;
		this.running = false;
	}

	public async start() {
		await this.queue.add(async () => await this.startNow());
	}

	public async stop() {
		await this.queue.add(async () => await this.stopNow());
	}

	public async restart() {
		await this.queue.add(async () => {
			await this.stopNow();
			await this.startNow();
		});
	}

	public getClient() {
		if (!this.running) {
			throw new Error("not started");
		}
		return this.client;
	}

	public getBinaryPath() {
		if (!this.running) {
			throw new Error("not started");
		}
		return this.binary;
	}

	private async startNow() {
		if (this.running) {
			return;
		}
		const settings = getWorkspaceSettings("jarl", await getRootWorkspaceFolder());
		const binary = await resolveJarlBinaryPath(settings.executableStrategy, settings.executablePath);
		const client = new lc.LanguageClient(
			"jarlLanguageServer",
			"Jarl Language Server",
			{ command: binary, args: ["server"] },
			{
				documentSelector: [
					{ language: "r", scheme: "file" },
					{ language: "r", pattern: "**/*.{r,R}" },
					{ language: "rmd", scheme: "file" },
					{ pattern: "**/*.{Rmd,rmd}", scheme: "file" },
					{ language: "quarto", scheme: "file" },
					{ pattern: "**/*.{qmd,Qmd}", scheme: "file" },
				],
				outputChannel: this.channel,
				initializationOptions: getInitializationOptions("jarl"),
			},
		);
		await client.start();
		this.client = client;
		this.binary = binary;
		this.running = true;
	}

	private async stopNow() {
		if (!this.running) {
			return;
		}
		const client = this.client;
		this.running = false;
		this.client = null;
		this.binary = null;
		await client.stop();
	}
}

export function specRegisterCommands(ctx) {
	ctx.extension.subscriptions.push(vscode.commands.registerCommand("jarl.restart", async () => await ctx.lsp.restart()));
}
