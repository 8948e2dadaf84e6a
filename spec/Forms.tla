------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* C20.  A grammar of JavaScript, TypeScript and JSX forms as a machine    *)
(* that derives programs: it holds the text produced so far and a stack of *)
(* symbols still to be expanded, and expands the leftmost symbol.  Every   *)
(* symbol has a plain form, which costs nothing, and others, which cost 1. *)
(* Symbols: S statement, I statement or declaration, E expression, M class member, P parameter,        *)
(* T type, N member of a namespace, O object member, B pattern, J JSX.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS LANG,       \* "js", "ts", "tsx", "jsx"
          START,      \* the symbols a program may start from
          MaxCost, EMIT

VARIABLES text, todo, cost, ph
vars == <<text, todo, cost, ph>>

TS == LANG \in {"ts", "tsx"}
XML == LANG \in {"jsx", "tsx"}
Plain == [ S |-> <<"foo();">>, I |-> <<"foo();">>, E |-> <<"x">>, M |-> <<"m() { return 1; }">>, P |-> <<"p">>, T |-> <<"number">>,
           N |-> <<"export const n = 1;">>, O |-> <<"a: 1">>, B |-> <<"b">>, J |-> <<"<i/>">>, D |-> <<"foo();">> ]
NT == DOMAIN Plain

JsS == { <<"{", "I", "I", "}">>, <<";">>, <<"if (", "E", ")", "S">>, <<"if (", "E", ")", "S", "else", "S">>, <<"for ((", "E", ");", "E", ";", "E", ")", "S">>, <<"for (const", "B", "of", "E", ")", "S">>, 
  <<"for (const k in", "E", ")", "S">>, <<"while (", "E", ")", "S">>, <<"do", "S", "while (", "E", ");">>, <<"for (let i =", "E", "; ; ) {", "I", "break; }">>, 
  <<"for (var [i =", "E", "] of y) ;">>, <<"for (o[", "E", "] of y)", "S">>, <<"switch (", "E", ") { case", "E", ":", "I", "default:", "I", "}">>, <<"switch (", "E", ") { }">>, 
  <<"switch (", "E", ") { default: case 1: {", "I", "} }">>, <<"try {", "I", "} catch {", "I", "}">>, <<"try {", "I", "} catch (", "B", ") {", "I", "} finally {", "I", "}">>, 
  <<"try { } finally {", "I", "}">>, <<"l: for (;;) { if (", "E", ") break l;", "I", "continue l; }">>, <<"l: {", "I", "break l; }">>, <<"l: m: while (0)", "S">>, 
  <<"throw", "E", ";">>, <<"debugger;">>, <<"var q3 =", "E", ";">>, <<"(", "E", ");">> }
JsI == { <<"const", "B", "=", "E", ";">>, <<"let q0;">>, <<"let q1 =", "E", ", q2 =", "E", ";">>, <<"function f(", "P", ") {", "I", "return", "E", "; }">>, <<"async function g(", "P", ") { await (", "E", "); for await (const z of", "E", ")", "S", "}">>, 
  <<"function* h(", "P", ") { yield", "E", "; yield*", "E", "; }">>, <<"async function* h2() { yield await (", "E", "); }">>, <<"function e() { }">>, <<"class C {", "M", "M", "}">>, 
  <<"class C2 extends ((", "E", ")) {", "M", "}">>, <<"class C3 extends Object { constructor(", "P", ") { super(", "E", ");", "I", "} }">>, <<"'use strict';">>, 
  <<"label: function lf() { }">>, <<"using u1 = (", "E", ");">> }
JsD == { <<"export default", "E", ";">>, <<"export default function (", "P", ") {", "I", "}">>, <<"export default class {", "M", "}">>, <<"export default async function n(", "P", ") { }">>,
  <<"export const e1 =", "E", ", e2 =", "E", ";">>, <<"export let", "B", "=", "E", ";">>, <<"export function ef(", "P", ") {", "I", "}">>, <<"export class EC {", "M", "}">>,
  <<"import d, { a as b2, default as c2 } from 'm';", "I">>, <<"import * as ns from 'm';", "I">>, <<"import 'm';">>, <<"export { foo as default } from 'm';">>,
  <<"export * from 'm';", "I">>, <<"export * as ns2 from 'm';">>, <<"const l1 =", "E", "; export { l1 as l2 };">>, <<"await (", "E", ")", ";">>, <<"export {};">>,
  <<"import j from 'm' with { type: 'json' };", "I">>, <<"export default (", "E", ");">>, <<"export default async (", "P", ") => {", "I", "};">> }
JsE == { <<"(", "E", ") && (", "E", ")">>, <<"(", "E", ") || (", "E", ")">>, <<"(", "E", ") ??", "(", "E", ")">>, <<"(", "E", ") ? (", "E", ") : (", "E", ")">>, <<"x = (", "E", ")">>, <<"x &&= (", "E", ")">>,
  <<"[", "B", "] = [", "E", "]">>, <<"({", "k:", "B", "} = {})">>, <<"(", "E", ",", "E", ")">>, <<"(", "E", ")(", "E", ", ...[", "E", "])">>, <<"new (", "E", ")(", "E", ")">>,
  <<"new Foo">>, <<"(", "E", ")[", "E", "]">>, <<"(", "E", ")?.a?.[", "E", "]?.(", "E", ")">>, <<"x.#y in z">>, <<"typeof (", "E", ")">>, <<"-(", "E", ")">>, <<"!(", "E", ")">>, <<"void (", "E", ")">>,
  <<"delete y[", "E", "]">>, <<"y++">>, <<"(", "E", ") in y">>, <<"(", "E", ") ** (", "E", ")">>, <<"[", "E", ", ,", "E", ", ...", "E", "]">>, <<"({", "O", ", ...", "E", " })">>, <<"({", "O", ",", "O", "})">>, <<"({})">>,
  <<"`a${", "E", "}b${", "E", "}`">>, <<"tag`a${", "E", "}`">>, <<"(", "E", ").t`b`">>, <<"/re/g">>, <<"10n">>, <<"'s'">>, <<"null">>, <<"this">>, <<"import(", "E", ")">>, <<"import.meta.url">>,
  <<"function (", "P", ") {", "I", "}">>, <<"function nm(", "P", ") { return", "E", "; }">>, <<"async function () { await (", "E", "); }">>, <<"function* () { yield", "E", "; }">>,
  <<"(", "P", ") => {", "I", "}">>, <<"(", "P", ") => (", "E", ")">>, <<"async (", "P", ") => await (", "E", ")">>, <<"() => ({", "O", "})">>, <<"() => { }">>, <<"a1 => b1 => (", "E", ")">>,
  <<"class {", "M", "}">>, <<"class Nm extends ((", "E", ")) {", "M", "}">>, <<"(function () { return new.target; })">>, <<"((", "E", "))">>, <<"async () => { for await (const v of", "E", ")", "S", "}">> }
JsM == { <<"constructor(", "P", ") {", "I", "}">>, <<"get g() {", "I", "return", "E", "; }">>, <<"set g(", "P", ") {", "I", "}">>, <<"static s(", "P", ") {", "I", "}">>, <<"async a() { await (", "E", "); }">>,
  <<"*gen() { yield", "E", "; }">>, <<"[", "E", "](", "P", ") {", "I", "}">>, <<"'q'() {", "I", "}">>, <<"1() {", "I", "}">>, <<"#pm(", "P", ") {", "I", "}">>, <<"f =", "E", ";">>, <<"static sf =", "E", ";">>, <<"#pf =", "E", ";">>,
  <<"static #spf =", "E", ";">>, <<"[", "E", "] =", "E", ";">>, <<"f2;">>, <<"#z; has(o) { return #z in o; }">>, <<"static {", "I", "}">>, <<"static async *x() { }">>, <<"static get #a() { return", "E", "; }">>, <<"'f4' =", "E", ";">>,
  <<"get; set; static; async;">>, <<"m2() { super.m2(", "E", "); }">>, <<"m3() { return super[", "E", "]; }">>, <<"m4() { }">>, <<";">>, <<"f3 = () => {", "I", "};">> }
JsP == { <<"p =", "E">>, <<"...", "B">>, <<"{ a,", "b:", "B", "}">>, <<"[", "B", ", ,", "B", "]">>, <<"{ c =", "E", ", ...r }">>, <<"p, r =", "E">>, <<"[", "B", "] =", "E">>, <<"{ [", "E", "]: d }">>, <<"">> }
JsB == { <<"{ b }">>, <<"{ b =", "E", "}">>, <<"{ k: b =", "E", "}">>, <<"[b =", "E", "]">>, <<"[, ...b]">>, <<"{ [", "E", "]: b }">>, <<"{ k: { b =", "E", "} }">>, <<"{ ...b }">>, <<"[[b] =", "E", "]">> }
JsO == { <<"a:", "E">>, <<"[", "E", "]:", "E">>, <<"x">>, <<"m(", "P", ") {", "I", "}">>, <<"get g() { return", "E", "; }">>, <<"set g(", "P", ") {", "I", "}">>, <<"async a() { }">>, <<"*g2() { yield", "E", "; }">>,
  <<"'q'() {", "I", "}">>, <<"[", "E", "]() {", "I", "}">>, <<"__proto__:", "E">>, <<"f: function () {", "I", "}">>, <<"f: (", "P", ") => (", "E", ")">>, <<"async *ag() { yield", "E", "; }">>, <<"1: ", "E">>, <<"get 'q2'() { return 1; }">> }

TsI == { <<"const { b3 }: { b3:", "T", "} =", "E", ";">>, <<"enum En { A, B =", "E", ", 'c-d' = 3 }">>, <<"const enum CE { A = 1 << 2, B = A }">>, <<"declare const dc:", "T", ";">>, <<"declare function df(p:", "T", "):", "T", ";">>, 
  <<"declare class DC { m():", "T", "; }">>, <<"declare enum DE { A }">>, <<"declare global { interface Window { a:", "T", "} }">>, <<"interface I<K extends", "T", "> { a?:", "T", "; m(x:", "T", "): void; readonly [k: string]: any; new (): I<K>; (): void }">>, 
  <<"type Ty<K = any> =", "T", ";">>, <<"function ov(a: string): void; function ov(a: any) {", "I", "}">>, <<"abstract class AC<K> {", "M", "abstract am():", "T", "; abstract af:", "T", "; }">>, 
  <<"class IC<K> extends Foo<K> implements I<K>, J2 {", "M", "}">>, <<"let tv:", "T", "=", "E", "as", "T", ";">>, <<"let da!:", "T", ";">>, <<"@dec(", "E", ") class DK {", "M", "}">>, 
  <<"function tp<K>(this: any,", "P", "): asserts x is", "T", "{", "I", "}">>, <<"function af2(x: unknown): x is", "T", "{ return", "E", "; }">> }
TsD == { <<"namespace Ns {", "N", "N", "}">>, <<"namespace A1.B1.C1 {", "N", "}">>, <<"export namespace EN {", "N", "}">>, <<"declare module 'dm' { export const q:", "T", "; }">>, <<"declare namespace DN { const q:", "T", "; }">>,
  <<"import type { Q } from 'm';", "I">>, <<"import { type Q2, v } from 'm';", "I">>, <<"export type { Q3 } from 'm';">>, <<"import rq = require('m');", "I">>, <<"export =", "E", ";">>, <<"import al = A.B;", "I">>, <<"export import al2 = A.B;">>,
  <<"export enum EE { A =", "E", "}">>, <<"export declare const edc:", "T", ";">>, <<"export abstract class EA {", "M", "}">>, <<"export default interface DI { a:", "T", "}">>, <<"export default abstract class {", "M", "}">>, <<"export as namespace Gl;">>,
  <<"export default function od(a: string): void; export default function od(a: any) {", "I", "}">>, <<"export type ET =", "T", ";">>, <<"export const ec2 =", "E", "satisfies", "T", ";">>, <<"@dec export class DX {", "M", "}">>, <<"export @dec class DY {", "M", "}">> }
TsE == { <<"(", "E", ") as", "T">>, <<"(", "E", ") as const">>, <<"(", "E", ")!">>, <<"(", "E", ") satisfies", "T">>, <<"foo<", "T", ">(", "E", ")">>, <<"(x:", "T", "):", "T", "=> (", "E", ")">>, <<"function <K>(this: any, a?: K, ...r: K[]):", "T", "{", "I", "}">>,
  <<"foo<", "T", ">">>, <<"(y!)[", "E", "]!.z!()">>, <<"(x as any) = (", "E", ")">>, <<"class <K> {", "M", "}">>, <<"@dec class {", "M", "}">>, <<"(async <K,>(a: K):", "Promise<K> => {", "I", "})">>, <<"((y as any)?.[", "E", "])!">> }
TsM == { <<"private pf?:", "T", "=", "E", ";">>, <<"constructor(private readonly cp:", "T", "=", "E", ", public cq?:", "T", ") {", "I", "}">>, <<"constructor(a: string); constructor(public a: any, b?:", "T", ") {", "I", "}">>, <<"declare df:", "T", ";">>,
  <<"m5(a: string): void; m5(a: any) {", "I", "}">>, <<"static readonly sr:", "T", "=", "E", ";">>, <<"[k: string]:", "T", ";">>, <<"@dec(", "E", ") dm(@pd(", "E", ") p:", "T", ") {", "I", "}">>, <<"@dec() df2 =", "E", ";">>, <<"accessor ac =", "E", ";">>,
  <<"static accessor #pac =", "E", ";">>, <<"protected override async om<K>(", "P", "):", "Promise<void> {", "I", "}">>, <<"abs!:", "T", ";">>, <<"get tg():", "T", "{ return", "E", "; }">>, <<"constructor(@pd() private x1 =", "E", ") {", "I", "}">>, <<"@dec get dg() { return", "E", "; }">>,
  <<"private constructor() {", "I", "}">>, <<"m6?(): void;">> }
TsP == { <<"p?:", "T">>, <<"p:", "T", "=", "E">>, <<"...p:", "T", "[]">>, <<"{ a =", "E", "}: {", "a?:", "T", "} = {}">> }
TsN == { <<"I">>, <<"export function nf(", "P", ") {", "I", "}">>, <<"export namespace In {", "N", "}">>, <<"export enum NE { A =", "E", "}">>, <<"export class NC {", "M", "}">>, <<"export let nl =", "E", ";">>, <<"export const", "B", "=", "E", ";">>,
  <<"export type NT2 =", "T", ";">>, <<"export import ni = A.B;">>, <<"declare const ndc:", "T", ";">>, <<"namespace Deep.er {", "N", "}">>, <<"export declare function ndf(): void;">>, <<"'use strict';", "I">> }
TsT == { <<"T", "| null">>, <<"[", "T", ", ...", "T", "[]]">>, <<"{ a:", "T", "; b?(): void }">>, <<"(a:", "T", ") =>", "T">>, <<"new () =>", "T">>, <<"keyof typeof x">>, <<"T", "extends infer U ? U : never">>, <<"{ [K in 'a']+?:", "T", "}">>, <<"`a${string}`">>, <<"import('m').Q">>, <<"unique symbol">>, <<"readonly string[]">>, <<"typeof import('m')">>, <<"asserts">>, <<"Foo<", "T", ">['a']">> }

JxJ == { <<"<a b=", "{", "E", "} c='s' d {...(", "E", ")}>{", "E", "} t", "J", "</a>">>, <<"<>{", "E", "}", "J", "</>">>, <<"<A.B x:y='1' />">>, <<"<a>{", "}{/* c */}{...", "E", "}&nbsp;</a>">>, <<"<a b=<i/> key={", "E", "}/>">>, <<"<T1 f={() => {", "I", "}}/>">>, <<"<T2>{(", "P", ") => ", "J", "}</T2>">>, <<"<T3 {...y} key='k'>{y ?", "J", ":", "J", "}</T3>">> }

Prods(nt) ==
  CASE nt = "S" -> JsS
    [] nt = "I" -> JsI \cup (IF TS THEN TsI ELSE {}) \cup {<<"S">>}
    [] nt = "D" -> JsD \cup (IF TS THEN TsD ELSE {}) \cup {<<"I">>}
    [] nt = "E" -> JsE \cup (IF TS THEN TsE ELSE {}) \cup (IF XML THEN {<<"J">>} ELSE {})
    [] nt = "M" -> JsM \cup (IF TS THEN TsM ELSE {})
    [] nt = "P" -> JsP \cup (IF TS THEN TsP ELSE {})
    [] nt = "B" -> JsB
    [] nt = "O" -> JsO
    [] nt = "N" -> TsN
    [] nt = "T" -> TsT
    [] OTHER -> JxJ

Free == {<<"S">>, <<"I">>, <<"J">>}      \* passing on costs nothing
Init == text = <<>> /\ cost = 0 /\ ph = "run" /\ todo \in { <<s>> : s \in START }
Expand ==
  /\ ph = "run" /\ todo # <<>> /\ Head(todo) \in NT
  /\ \/ todo' = Plain[Head(todo)] \o Tail(todo) /\ cost' = cost
     \/ /\ cost < MaxCost
        /\ \E p \in Prods(Head(todo)) : todo' = p \o Tail(todo) /\ cost' = cost + (IF p \in Free THEN 0 ELSE 1)
  /\ UNCHANGED <<text, ph>>
Shift == /\ ph = "run" /\ todo # <<>> /\ Head(todo) \notin NT
         /\ text' = Append(text, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<cost, ph>>
Show == /\ ph = "run" /\ todo = <<>>
        /\ EMIT => PrintT("P" \o ToJson([t |-> text, c |-> cost]))
        /\ ph' = "end" /\ UNCHANGED <<text, todo, cost>>
Next == Expand \/ Shift \/ Show
Spec == Init /\ [][Next]_vars

(* every symbol of a production is a terminal or has a plain form of terminals: each derivation ends in a program *)
Closed == \A nt \in NT : (\A i \in DOMAIN Plain[nt] : Plain[nt][i] \notin NT)
Bounded == cost <= MaxCost /\ (ph = "end" => todo = <<>>)
=============================================================================
