//! The host module `host`: the only externally visible state of a program under test is the log.
use std::cell::RefCell;

use ferlium::{
    Path,
    hir::function::{BinaryNativeFnNNN, NullaryNativeFnN, UnaryNativeFnNFN, UnaryNativeFnNN},
    compiler::error::SourceFailureKind,
    module::{Module, ModuleId},
    types::effects::{PrimitiveEffect, effect, effects, no_effects},
};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static COUNTER: RefCell<isize> = const { RefCell::new(0) };
}

pub fn take_log() -> Vec<String> {
    COUNTER.with(|c| *c.borrow_mut() = 0);
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn push(entry: String) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 200_000 {
            l.push(entry)
        }
    });
}

fn log(value: isize) {
    push(format!("L{value}"));
}

/// A runtime value the optimizer cannot know: reads host state.
fn src(value: isize) -> isize {
    value
}

/// Logs, and hands back its argument: makes evaluation order visible inside expressions.
fn tap(value: isize) -> isize {
    push(format!("T{value}"));
    value
}

fn tapb(tag: isize, value: bool) -> bool {
    push(format!("T{tag}"));
    value
}

/// A fresh instance identity.
fn fresh(label: isize) -> isize {
    let id = COUNTER.with(|c| {
        let mut c = c.borrow_mut();
        *c += 1;
        *c
    });
    push(format!("N{label}.{id}"));
    id
}

/// Declared pure, as `Value::drop` carries no effect.
fn dropped(label: isize, id: isize) {
    push(format!("D{label}.{id}"));
}

fn cloned(label: isize, from: isize) -> isize {
    let id = COUNTER.with(|c| {
        let mut c = c.borrow_mut();
        *c += 1;
        *c
    });
    push(format!("C{label}.{from}.{id}"));
    id
}

fn boom(value: isize) -> Result<isize, SourceFailureKind> {
    push(format!("B{value}"));
    Err(SourceFailureKind::InvalidArgument(
        format!("boom {value}"),
    ))
}

pub fn module(id: ModuleId) -> Module {
    let w = || effect(PrimitiveEffect::Write);
    let r = || effect(PrimitiveEffect::Read);
    let mut m = Module::new(id, Path::single_str("host"));
    m.add_function(
        "log".into(),
        UnaryNativeFnNN::description_with_default_ty(log, ["value"], "log", w()),
    );
    m.add_function(
        "src".into(),
        UnaryNativeFnNN::description_with_default_ty(src, ["value"], "src", r()),
    );
    m.add_function(
        "tap".into(),
        UnaryNativeFnNN::description_with_default_ty(tap, ["value"], "tap", w()),
    );
    m.add_function(
        "tapb".into(),
        BinaryNativeFnNNN::description_with_default_ty(tapb, ["tag", "value"], "tapb", w()),
    );
    m.add_function(
        "fresh".into(),
        UnaryNativeFnNN::description_with_default_ty(
            fresh,
            ["label"],
            "fresh",
            effects(&[PrimitiveEffect::Read, PrimitiveEffect::Write]),
        ),
    );
    m.add_function(
        "dropped".into(),
        BinaryNativeFnNNN::description_with_default_ty(dropped, ["label", "id"], "dropped", no_effects()),
    );
    m.add_function(
        "cloned".into(),
        BinaryNativeFnNNN::description_with_default_ty(cloned, ["label", "from"], "cloned", no_effects()),
    );
    m.add_function(
        "boom".into(),
        UnaryNativeFnNFN::description_with_default_ty(
            boom,
            ["value"],
            "boom",
            effects(&[PrimitiveEffect::Write, PrimitiveEffect::Fallible]),
        ),
    );
    m.add_function(
        "rd".into(),
        NullaryNativeFnN::description_with_default_ty(|| (), [], "rd", r()),
    );
    m.add_function(
        "wr".into(),
        NullaryNativeFnN::description_with_default_ty(|| (), [], "wr", w()),
    );
    m
}
