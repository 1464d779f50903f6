import * as core from "@streamtasks/core";
import staticC from "web:std-configurators/src/entries/static";
import multitrackio from "web:std-configurators/src/entries/multitrackio";
import switchC from "web:std-configurators/src/entries/switch";
import synchronizer from "web:std-configurators/src/entries/synchronizer";
import namedinput from "web:std-configurators/src/entries/namedinput";
import namedoutput from "web:std-configurators/src/entries/namedoutput";
import notfound from "web:std-configurators/src/entries/notfound";
import { RootStore, RootStoreContext } from "web:app/src/state/root-store";
import { TaskNode } from "web:app/src/lib/task-node";
import { NodeEditorRenderer } from "web:app/src/lib/node-editor";
import { HTMLViewport } from "web:app/src/lib/html-viewport";
import { WindowEditorRenderer } from "web:app/src/lib/window-editor/editor";
import { TaskEditorWindow } from "web:app/src/components/TaskEditorWindow";
import { TaskDisplayWindow } from "web:app/src/components/TaskDisplayWindow";
import * as React from "react";
import { createRoot } from "react-dom/client";

export const configurators = { static: staticC, multitrackio, switch: switchC, synchronizer, namedinput, namedoutput, notfound };
export { core, RootStore, RootStoreContext, TaskNode, NodeEditorRenderer, HTMLViewport, WindowEditorRenderer, TaskEditorWindow, TaskDisplayWindow, React, createRoot };
