// Conformance harness, compiled into the crate under test with `--cfg verif_hooks`
// (see /repo/src/main.rs). It is a register machine over the crate's API: it reads one
// command per line on stdin, performs it on the real code and writes one JSON event per
// line on stdout. It judges nothing: the TLA+ trace specification does.

use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::op::operator::OperatorType;
use crate::ast::tree::{AstNode, Expression};
use crate::compute::derivative::Derivative;
use crate::compute::limit::limit_expression::{LimitExpression, NoValidLimitFound};
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};
use crate::math_op::cos::{cos, Cos};
use crate::math_op::exp::{exp, Exp};
use crate::math_op::ln::{ln, Ln};
use crate::math_op::pow::Pow;
use crate::math_op::sin::{sin, Sin};
use crate::smart_num::rational::{RationalNum, ToRational};
use crate::smart_num::val_holder::IsClose;
use crate::smart_num::{SmartNum, ToSmartNum};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAX_NODES: usize = 4000;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn unpct(s: &str) -> String {
    let b = s.as_bytes();
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 1 == b.len() {
            i += 1; // a final "%" marks an empty name
        } else if b[i] == b'%' {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).unwrap()
}

fn chars(s: &str) -> String {
    let v: Vec<String> = s.chars().map(|c| js(&c.to_string())).collect();
    format!("[{}]", v.join(","))
}

fn f64s(v: f64) -> String {
    if v.is_nan() {
        "nan".to_string()
    } else if v.is_infinite() {
        if v > 0.0 { "inf".to_string() } else { "-inf".to_string() }
    } else {
        format!("{:e}", v)
    }
}

fn rat_s(r: &RationalNum) -> String {
    let s = match r.sign {
        1 => "",
        -1 => "-",
        _ => "!",
    };
    format!("{}{}/{}", s, r.nominator, r.denominator)
}

fn tag(n: &SmartNum) -> String {
    let mut t: Vec<&str> = vec![];
    if n.is_zero() {
        t.push("zero")
    }
    if n.is_one() {
        t.push("one")
    }
    if n.is_pi() {
        t.push("pi")
    }
    if n.is_e() {
        t.push("e")
    }
    if t.is_empty() {
        "none".to_string()
    } else {
        t.join("+")
    }
}

// ["num", kind, value, tag]
fn num_j(n: &SmartNum) -> String {
    let (k, v) = if let Some(i) = n.to_i64() {
        ("int", i.to_string())
    } else if let Some(r) = n.to_rational() {
        ("rat", rat_s(&r))
    } else {
        ("real", f64s(n.to_f64()))
    };
    format!("[\"num\",{},{},{}]", js(k), js(&v), js(&tag(n)))
}

fn count(e: &Expression) -> usize {
    1 + e.child.iter().map(count).sum::<usize>()
}

fn opname(t: &OperatorType) -> &'static str {
    match t {
        OperatorType::Neg => "neg",
        OperatorType::Add => "add",
        OperatorType::Sub => "sub",
        OperatorType::Mul => "mul",
        OperatorType::Div => "div",
        OperatorType::Sin => "sin",
        OperatorType::Cos => "cos",
        OperatorType::Exp => "exp",
        OperatorType::Ln => "ln",
        OperatorType::Pow => "pow",
    }
}

fn tree(e: &Expression) -> String {
    match &e.root {
        AstNode::Operand(AstOperand::Num(n)) => {
            if e.child.is_empty() {
                num_j(n)
            } else {
                "[\"malformed\"]".to_string()
            }
        }
        AstNode::Operand(AstOperand::Variable(v)) => {
            if e.child.is_empty() {
                format!("[\"var\",{}]", js(&v.name))
            } else {
                "[\"malformed\"]".to_string()
            }
        }
        AstNode::Operator(op) => {
            let n = opname(&op.descriptor);
            let want = match op.descriptor {
                OperatorType::Neg
                | OperatorType::Sin
                | OperatorType::Cos
                | OperatorType::Exp
                | OperatorType::Ln => 1,
                _ => 2,
            };
            if e.child.len() != want {
                return "[\"malformed\"]".to_string();
            }
            let mut s = format!("[{}", js(n));
            for c in &e.child {
                s.push(',');
                s.push_str(&tree(c));
            }
            s.push(']');
            s
        }
    }
}

fn depth(e: &Expression) -> usize {
    1 + e.child.iter().map(depth).max().unwrap_or(0)
}

/// deepest tree written as nested JSON; deeper ones are written in postfix form
const MAX_DEPTH: usize = 180;

fn leaf_of(e: &Expression) -> String {
    if e.child.is_empty() {
        tree(e)
    } else {
        "[\"malformed\"]".to_string()
    }
}

fn flat(e: &Expression, out: &mut Vec<String>) {
    for c in &e.child {
        flat(c, out);
    }
    out.push(match &e.root {
        AstNode::Operator(op) => format!(
            "[\"op\",{},{}]",
            js(opname(&op.descriptor)),
            js(&e.child.len().to_string())
        ),
        _ => leaf_of(e),
    });
}

struct Out(Vec<(String, String)>);

impl Out {
    fn s(&mut self, k: &str, v: &str) -> &mut Self {
        self.0.push((k.to_string(), js(v)));
        self
    }
    fn raw(&mut self, k: &str, v: String) -> &mut Self {
        self.0.push((k.to_string(), v));
        self
    }
    fn b(&mut self, k: &str, v: bool) -> &mut Self {
        self.0.push((k.to_string(), v.to_string()));
        self
    }
}

struct M {
    e: Vec<Expression>,
    n: Vec<SmartNum>,
    q: Vec<RationalNum>,
}

impl M {
    fn new() -> M {
        M {
            e: vec![Expression::from(0_i64); 10],
            n: vec![SmartNum::from(0_i64); 10],
            q: vec![RationalNum::from(0_u64); 10],
        }
    }
}

fn put_e(m: &mut M, dst: usize, x: Expression, o: &mut Out) {
    let c = count(&x);
    if c > MAX_NODES {
        o.s("st", "big");
        o.s("nodes", &c.to_string());
        return;
    }
    o.s("st", "ok");
    if depth(&x) <= MAX_DEPTH {
        o.raw("res", tree(&x));
    } else {
        let mut v = vec![];
        flat(&x, &mut v);
        o.raw("flat", format!("[{}]", v.join(",")));
    }
    m.e[dst] = x;
}

fn lit_num(ty: &str, v: &str) -> SmartNum {
    match ty {
        "i64" => SmartNum::from(v.parse::<i64>().unwrap()),
        "u64" => SmartNum::from(v.parse::<u64>().unwrap()),
        "i32" => SmartNum::from(v.parse::<i32>().unwrap()),
        "u32" => SmartNum::from(v.parse::<u32>().unwrap()),
        "i16" => SmartNum::from(v.parse::<i16>().unwrap()),
        "u16" => SmartNum::from(v.parse::<u16>().unwrap()),
        "i8" => SmartNum::from(v.parse::<i8>().unwrap()),
        "u8" => SmartNum::from(v.parse::<u8>().unwrap()),
        "f64" => SmartNum::from(v.parse::<f64>().unwrap()),
        "f32" => SmartNum::from(v.parse::<f32>().unwrap()),
        _ => panic!("harness: bad literal type {}", ty),
    }
}

fn lit_expr(ty: &str, v: &str) -> Expression {
    match ty {
        "i64" => Expression::from(v.parse::<i64>().unwrap()),
        "u64" => Expression::from(v.parse::<u64>().unwrap()),
        "i32" => Expression::from(v.parse::<i32>().unwrap()),
        "u32" => Expression::from(v.parse::<u32>().unwrap()),
        "i16" => Expression::from(v.parse::<i16>().unwrap()),
        "u16" => Expression::from(v.parse::<u16>().unwrap()),
        "i8" => Expression::from(v.parse::<i8>().unwrap()),
        "u8" => Expression::from(v.parse::<u8>().unwrap()),
        "f64" => Expression::from(v.parse::<f64>().unwrap()),
        "f32" => Expression::from(v.parse::<f32>().unwrap()),
        _ => panic!("harness: bad literal type {}", ty),
    }
}

fn lim_j(o: &mut Out, r: Result<LimitExpression, NoValidLimitFound>) {
    match r {
        Err(_) => {
            o.s("st", "err");
        }
        Ok(l) => {
            if let LimitExpression::Normal(x) = &l {
                if count(x) > MAX_NODES || depth(x) > MAX_DEPTH {
                    o.s("st", "big");
                    return;
                }
            }
            o.s("st", "ok");
            let c = match &l {
                LimitExpression::Infinitesimal => "zero",
                LimitExpression::Infinity => "inf",
                LimitExpression::BoundedFluctuation => "bf",
                LimitExpression::Normal(_) => "normal",
            };
            o.s("cls", c);
            if let LimitExpression::Normal(x) = &l {
                o.raw("res", tree(x));
                if let Ok(n) = x.to_smart_num() {
                    o.b("nzero", n.is_zero());
                } else {
                    o.b("nzero", false);
                }
            }
            o.raw("chars", chars(&l.to_string()));
        }
    }
}

fn lim_arg(m: &M, s: &str) -> LimitExpression {
    match s {
        "zero" => LimitExpression::Infinitesimal,
        "inf" => LimitExpression::Infinity,
        "bf" => LimitExpression::BoundedFluctuation,
        r => LimitExpression::Normal(m.e[r.parse::<usize>().unwrap()].clone()),
    }
}

fn taylor_j(
    o: &mut Out,
    r: Result<
        PartialExpansion,
        crate::compute::taylor_expansion::partial_expansion::TaylorExpansionError<Expression>,
    >,
) {
    match r {
        Err(_) => {
            o.s("st", "err");
        }
        Ok(p) => {
            if p.coefficient.iter().map(count).sum::<usize>() + count(&p.residual) > 20 * MAX_NODES
                || p.coefficient.iter().map(depth).max().unwrap_or(0).max(depth(&p.residual)) > MAX_DEPTH
                || depth(&p.at).max(depth(&p.of)) > MAX_DEPTH
            {
                o.s("st", "big");
                return;
            }
            o.s("st", "ok");
            let cs: Vec<String> = p.coefficient.iter().map(tree).collect();
            o.raw("coef", format!("[{}]", cs.join(",")));
            o.s("order", &p.order.to_string());
            o.raw("of", tree(&p.of));
            o.raw("at", tree(&p.at));
            o.raw("residual", tree(&p.residual));
            o.raw("chars", chars(&p.to_string()));
        }
    }
}

fn dispatch(m: &mut M, w: &[&str], o: &mut Out) {
    let r = |k: usize| -> usize { w[k].parse::<usize>().unwrap() };
    match w[0] {
        "get" => {
            // get r: the register, untouched
            let x = m.e[r(1)].clone();
            put_e(m, r(1), x, o);
        }
        "new" | "again" => {
            *m = M::new();
            o.s("st", "ok");
        }
        // ---- expressions -------------------------------------------------------------
        "num" => {
            let x = lit_expr(w[2], w[3]);
            put_e(m, r(1), x, o);
        }
        "rat" => match SmartNum::new_rational(
            w[2].parse().unwrap(),
            w[3].parse().unwrap(),
            w[4].parse().unwrap(),
        ) {
            None => {
                o.s("st", "none");
            }
            Some(v) => put_e(m, r(1), Expression::from(v), o),
        },
        "const" => {
            let x = match w[2] {
                "pi" => Expression::pi(),
                "e" => Expression::e(),
                "one" => Expression::one(),
                _ => Expression::zero(),
            };
            put_e(m, r(1), x, o);
        }
        "var" => {
            let nm = unpct(w[2]);
            let x = match w[3] {
                "expr" => Expression::new_variable(&nm),
                "var" => Expression::from(Variable::new_variable(&nm)),
                _ => Expression::from(AstOperand::new_variable(&nm)),
            };
            put_e(m, r(1), x, o);
        }
        "un" => {
            let a = m.e[r(3)].clone();
            let x = match w[2] {
                "neg" => -a,
                "sin" => match w[4] {
                    "ref" => Sin::sin(&a),
                    "val" => Sin::sin(a),
                    _ => sin(a),
                },
                "cos" => match w[4] {
                    "ref" => Cos::cos(&a),
                    "val" => Cos::cos(a),
                    _ => cos(a),
                },
                "exp" => match w[4] {
                    "val" => Exp::exp(a),
                    _ => exp(a),
                },
                "ln" => match w[4] {
                    "val" => Ln::ln(a),
                    _ => ln(a),
                },
                z => panic!("harness: bad unary {}", z),
            };
            put_e(m, r(1), x, o);
        }
        "bin" => {
            let a = m.e[r(3)].clone();
            let b = m.e[r(4)].clone();
            let x = match w[2] {
                "add" => a + b,
                "sub" => a - b,
                "mul" => a * b,
                "div" => a / b,
                "pow" => a.pow(b),
                z => panic!("harness: bad binary {}", z),
            };
            put_e(m, r(1), x, o);
        }
        "unl" => {
            // unl dst sin|cos type literal: the generic function applied to a primitive
            let x = match (w[2], w[3]) {
                ("sin", "i64") => sin(w[4].parse::<i64>().unwrap()),
                ("cos", "i64") => cos(w[4].parse::<i64>().unwrap()),
                ("sin", "f64") => sin(w[4].parse::<f64>().unwrap()),
                ("cos", "f64") => cos(w[4].parse::<f64>().unwrap()),
                ("sin", "u32") => sin(w[4].parse::<u32>().unwrap()),
                ("cos", "u32") => cos(w[4].parse::<u32>().unwrap()),
                ("sin", _) => sin(Variable::new_variable(&unpct(w[4]))),
                _ => cos(Variable::new_variable(&unpct(w[4]))),
            };
            put_e(m, r(1), x, o);
        }
        "opeq" => {
            // opeq a b: equality of the root operators
            match (&m.e[r(1)].root, &m.e[r(2)].root) {
                (AstNode::Operator(a), AstNode::Operator(b)) => {
                    o.s("st", "ok").b("eq", a == b).b("ne", a != b);
                }
                _ => {
                    o.s("st", "none");
                }
            }
        }
        "powf" => {
            let a = m.e[r(2)].clone();
            let x = match w[3] {
                "f64" => a.pow(w[4].parse::<f64>().unwrap()),
                "u64" => a.pow(w[4].parse::<u64>().unwrap()),
                _ => a.pow(Variable::new_variable(&unpct(w[4]))),
            };
            put_e(m, r(1), x, o);
        }
        "powi" => {
            let a = m.e[r(2)].clone();
            let x = a.pow(w[3].parse::<i64>().unwrap());
            put_e(m, r(1), x, o);
        }
        "rpn" => {
            // rpn dst tok...: postfix program over the real constructors, in one event
            let mut st: Vec<Expression> = vec![];
            for t in &w[2..] {
                let t = unpct(t);
                let x = match t.as_str() {
                    "neg" => -st.pop().unwrap(),
                    "sin" => sin(st.pop().unwrap()),
                    "cos" => cos(st.pop().unwrap()),
                    "exp" => exp(st.pop().unwrap()),
                    "ln" => ln(st.pop().unwrap()),
                    "add" | "sub" | "mul" | "div" | "pow" => {
                        let b = st.pop().unwrap();
                        let a = st.pop().unwrap();
                        match t.as_str() {
                            "add" => a + b,
                            "sub" => a - b,
                            "mul" => a * b,
                            "div" => a / b,
                            _ => a.pow(b),
                        }
                    }
                    "pi" => Expression::pi(),
                    "e" => Expression::e(),
                    _ => {
                        let (k, v) = t.split_at(1);
                        match k {
                            "v" => Expression::new_variable(v),
                            "i" => Expression::from(v.parse::<i64>().unwrap()),
                            "f" => Expression::from(v.parse::<f64>().unwrap()),
                            "q" => {
                                let (neg, v) = match v.strip_prefix('-') {
                                    Some(z) => (true, z),
                                    None => (false, v),
                                };
                                let (n, d) = v.split_once('/').unwrap();
                                Expression::from(
                                    SmartNum::new_rational(
                                        if neg { -1 } else { 1 },
                                        n.parse().unwrap(),
                                        d.parse().unwrap(),
                                    )
                                    .unwrap(),
                                )
                            }
                            _ => panic!("harness: bad token {}", t),
                        }
                    }
                };
                st.push(x);
            }
            let x = st.pop().unwrap();
            put_e(m, r(1), x, o);
        }
        "fold" => {
            let x = m.e[r(2)].clone().num_aggregate();
            put_e(m, r(1), x, o);
        }
        "der" => {
            // der dst src name
            let v = Variable::new_variable(&unpct(w[3]));
            match m.e[r(2)].clone().derivative(&v) {
                Ok(x) => put_e(m, r(1), x, o),
                Err(_) => {
                    o.s("st", "err");
                }
            }
        }
        "derx" => {
            // derx dst src toreg own|ref
            let t = m.e[r(3)].clone();
            let res = match w[4] {
                "own" => m.e[r(2)].clone().derivative(t),
                _ => m.e[r(2)].clone().derivative(&t),
            };
            match res {
                Ok(x) => put_e(m, r(1), x, o),
                Err(e) => {
                    let _ = e.to_string();
                    o.s("st", "err");
                }
            }
        }
        "sub" => {
            // sub dst src name rep
            let v = Variable::new_variable(&unpct(w[3]));
            let t = m.e[r(4)].clone();
            match m.e[r(2)].clone().substitute(&v, &t) {
                Ok(x) => put_e(m, r(1), x, o),
                Err(_) => {
                    o.s("st", "err");
                }
            }
        }
        "subx" => {
            // subx dst src ureg vreg own|ref
            let u = m.e[r(3)].clone();
            let v = m.e[r(4)].clone();
            let res = match w[5] {
                "own" => m.e[r(2)].clone().substitute(u, v),
                _ => m.e[r(2)].clone().substitute(&u, &v),
            };
            match res {
                Ok(x) => put_e(m, r(1), x, o),
                Err(e) => {
                    let _ = e.to_string();
                    o.s("st", "err");
                }
            }
        }
        "show" => {
            o.s("st", "ok").raw("chars", chars(&m.e[r(1)].to_string()));
        }
        "obs" => {
            let x = m.e[r(1)].clone();
            o.s("st", "ok");
            o.b("is_num", x.is_num())
                .b("is_operator", x.is_operator())
                .b("is_operand", x.is_operand())
                .b("is_zero", x.is_zero())
                .b("is_one", x.is_one())
                .b("is_pi", x.is_pi())
                .b("is_e", x.is_e());
            let a = x.clone().to_smart_num().is_ok();
            let b = (&x).to_smart_num().is_ok();
            o.b("cast_ref", b).b("cast_own", a);
            let v: Option<Variable> = x.clone().into();
            let vr: Option<&Variable> = (&x).into();
            o.s("varname", &v.map(|z| format!("={}", z.name)).unwrap_or("none".to_string()));
            o.s("varnameref", &vr.map(|z| format!("={}", z.name)).unwrap_or("none".to_string()));
            if let AstNode::Operand(y) = &x.root {
                let yo: Option<Variable> = y.clone().into();
                let yr: Option<&Variable> = y.into();
                o.s("opviews", &format!(
                    "{} {} {} {} {} {} {} {}",
                    y.is_num(), y.is_zero(), y.is_one(), y.is_pi(), y.is_e(),
                    y.to_smart_num().is_ok(), y.clone().to_smart_num().is_ok(),
                    yo.map(|z| z.name) == yr.map(|z| z.name.clone())
                ));
                o.raw("optext", chars(&y.to_string())).raw("opdisp", chars(&format!("{}", y)));
            }
            if let AstNode::Operator(y) = &x.root {
                o.raw("opdisp", chars(&format!("{}", y)));
            }
            o.s(
                "rat",
                &(&x).to_rational().map(|z| rat_s(&z)).unwrap_or("none".to_string()),
            );
            o.s(
                "ratown",
                &x.to_rational().map(|z| rat_s(&z)).unwrap_or("none".to_string()),
            );
        }
        "near" => {
            let e: f64 = w[3].parse().unwrap();
            let a = m.e[r(1)].clone();
            let b = m.e[r(2)].clone();
            match a.near(&b, e) {
                Ok(v) => {
                    o.s("st", "ok").b("ans", v);
                }
                Err(_) => {
                    o.s("st", "err");
                }
            }
        }
        "names" => {
            // names kind n1 n2 ...: every operation of that kind on every ordered pair of the
            // names as variables; reported are the pairs for which the two are one variable
            let vs: Vec<Variable> = w[2..].iter().map(|s| Variable::new_variable(&unpct(s))).collect();
            let xs: Vec<Expression> = vs.iter().map(|v| Expression::from(v.clone())).collect();
            let seven = Expression::from(7_i64);
            let mut pairs: Vec<String> = vec![];
            let mut odd: Vec<String> = vec![];
            for i in 0..vs.len() {
                for j in 0..vs.len() {
                    let x = xs[i].clone();
                    let z = match w[1] {
                        "der" => x.derivative(&vs[j]).ok(),
                        "sub" => x.substitute(&vs[j], &seven).ok(),
                        "limit" => match crate::compute::limit::verif_access::limit(x, &vs[j], seven.clone(), 0) {
                            Ok(LimitExpression::Normal(z)) => Some(z),
                            _ => None,
                        },
                        "taylor" => x.taylor_expansion(&vs[j], &seven, 0).ok().and_then(|p| p.coefficient.get(0).cloned()),
                        "fold" => Some((x - xs[j].clone()).num_aggregate()),
                        _ => Some(if xs[i].to_string() == xs[j].to_string() { seven.clone() } else { xs[i].clone() }),
                    };
                    let kept = |z: &Expression| -> bool {
                        match &z.root {
                            AstNode::Operand(AstOperand::Variable(u)) => u.name == vs[i].name,
                            AstNode::Operand(_) => w[1] == "der" && z.is_zero(),
                            _ => (w[1] == "fold" || w[1] == "taylor") && z.child.len() == 2,
                        }
                    };
                    let same = |z: &Expression| -> bool {
                        match w[1] {
                            "der" => z.is_one(),
                            "fold" => z.is_zero(),
                            _ => z.to_smart_num().map_or(false, |v| v.to_f64() == 7.0),
                        }
                    };
                    match &z {
                        Some(z) if same(z) => pairs.push(format!("[\"{}\",\"{}\"]", i, j)),
                        Some(z) if kept(z) => (),
                        _ => odd.push(format!("[\"{}\",\"{}\"]", i, j)),
                    }
                }
            }
            o.s("st", "ok");
            o.raw("pairs", format!("[{}]", pairs.join(",")));
            o.raw("odd", format!("[{}]", odd.join(",")));
        }
        "taylor" => {
            // taylor src name at order
            let v = Variable::new_variable(&unpct(w[2]));
            let at = m.e[r(3)].clone();
            let k: u64 = w[4].parse().unwrap();
            taylor_j(o, m.e[r(1)].clone().taylor_expansion(&v, &at, k));
        }
        "taylorx" => {
            // taylorx src ofreg at order
            let v = m.e[r(2)].clone();
            let at = m.e[r(3)].clone();
            let k: u64 = w[4].parse().unwrap();
            taylor_j(o, m.e[r(1)].clone().taylor_expansion(v, at, k));
        }
        "limit" => {
            // limit src name to order
            let v = Variable::new_variable(&unpct(w[2]));
            let to = m.e[r(3)].clone();
            let k: u64 = w[4].parse().unwrap();
            lim_j(
                o,
                crate::compute::limit::verif_access::limit(m.e[r(1)].clone(), &v, to, k),
            );
        }
        "limitx" => {
            let v = m.e[r(2)].clone();
            let to = m.e[r(3)].clone();
            let k: u64 = w[4].parse().unwrap();
            lim_j(
                o,
                crate::compute::limit::verif_access::limit_expr(m.e[r(1)].clone(), v, to, k),
            );
        }
        "lop" => {
            // lop op A B     (A, B: zero | inf | bf | register holding the Normal expression)
            let a = lim_arg(m, w[2]);
            let b = lim_arg(m, w[3]);
            if let LimitExpression::Normal(x) = &a {
                o.raw("ea", tree(x));
            }
            if let LimitExpression::Normal(x) = &b {
                o.raw("eb", tree(x));
            }
            let res = match w[1] {
                "add" => a + b,
                "sub" => a - b,
                "mul" => a * b,
                "div" => a / b,
                _ => Ok(-a),
            };
            lim_j(o, res);
        }
        // ---- numbers -----------------------------------------------------------------
        "nnew" => {
            let v = lit_num(w[2], w[3]);
            o.s("st", "ok").raw("res", num_j(&v));
            m.n[r(1)] = v;
        }
        "nrat" => match SmartNum::new_rational(
            w[2].parse().unwrap(),
            w[3].parse().unwrap(),
            w[4].parse().unwrap(),
        ) {
            None => {
                o.s("st", "none");
            }
            Some(v) => {
                o.s("st", "ok").raw("res", num_j(&v));
                m.n[r(1)] = v;
            }
        },
        "nconst" => {
            let v = match w[2] {
                "pi" => SmartNum::pi(),
                "e" => SmartNum::e(),
                "one" => SmartNum::one(),
                _ => SmartNum::zero(),
            };
            o.s("st", "ok").raw("res", num_j(&v));
            m.n[r(1)] = v;
        }
        "nop" => {
            let a = m.n[r(3)];
            let b = m.n[r(4)];
            let v = match w[2] {
                "add" => a + b,
                "sub" => a - b,
                "mul" => a * b,
                "div" => a / b,
                _ => -a,
            };
            o.s("st", "ok").raw("res", num_j(&v));
            m.n[r(1)] = v;
        }
        "nobs" => {
            let a = m.n[r(1)];
            o.s("st", "ok");
            o.s("i64", &a.to_i64().map(|z| z.to_string()).unwrap_or("none".to_string()));
            o.s("f64", &f64s(a.to_f64()));
            o.s("rat", &a.to_rational().map(|z| rat_s(&z)).unwrap_or("none".to_string()));
            o.s(
                "ratref",
                &(&a).to_rational().map(|z| rat_s(&z)).unwrap_or("none".to_string()),
            );
            o.s("sign", &a.sign().to_string());
            o.raw("chars", chars(&a.to_string()));
        }
        "nclose" => {
            let e: f64 = w[3].parse().unwrap();
            let a = m.n[r(1)];
            let b = m.n[r(2)];
            o.s("st", "ok");
            o.b("ans", a.is_close(b, e)).b("ansref", (&a).is_close(&b, e));
        }
        // ---- rationals ---------------------------------------------------------------
        "qnew" => {
            let s: i64 = w[2].parse().unwrap();
            let n: u64 = w[3].parse().unwrap();
            let d: u64 = w[4].parse().unwrap();
            let v = match w[5] {
                "new" => RationalNum::new(s, n, d),
                "pos" => RationalNum::new_positive(n, d),
                _ => RationalNum::new_negative(n, d),
            };
            match v {
                None => {
                    o.s("st", "none");
                }
                Some(v) => {
                    o.s("st", "ok").s("res", &rat_s(&v));
                    m.q[r(1)] = v;
                }
            }
        }
        "qfrom" => {
            let v = match w[2] {
                "u64" => RationalNum::from(w[3].parse::<u64>().unwrap()),
                _ => RationalNum::from(w[3].parse::<i64>().unwrap()),
            };
            o.s("st", "ok").s("res", &rat_s(&v));
            m.q[r(1)] = v;
        }
        "qop" => {
            let a = m.q[r(3)];
            let b = m.q[r(4)];
            let v = match w[2] {
                "add" => a + b,
                "sub" => a - b,
                "mul" => a * b,
                "div" => a / b,
                "neg" => -a,
                _ => a.reduce(),
            };
            o.s("st", "ok").s("res", &rat_s(&v));
            m.q[r(1)] = v;
        }
        "qcmp" => {
            let a = m.q[r(1)];
            let b = m.q[r(2)];
            o.s("st", "ok").b("eq", a == b).b("ne", a != b);
        }
        "qobs" => {
            let a = m.q[r(1)];
            o.s("st", "ok")
                .s("f64", &f64s(a.to_f64()))
                .raw("chars", chars(&a.to_string()));
        }
        z => panic!("harness: unknown command {}", z),
    }
}

fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut m = M::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let mut o = Out(vec![]);
        let a: Vec<String> = w.iter().map(|s| js(&unpct(s))).collect();
        o.raw("cmd", format!("[{}]", a.join(",")));
        let keep = (m.e.clone(), m.n.clone(), m.q.clone());
        let n0 = o.0.len();
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(&mut m, &w, &mut o)));
        if let Err(e) = r {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            o.0.truncate(n0);
            o.s("st", if msg.starts_with("harness:") { "harness" } else { "panic" });
            o.s("msg", &msg);
            m.e = keep.0;
            m.n = keep.1;
            m.q = keep.2;
        }
        let body: Vec<String> = o.0.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let mut h = stdout.lock();
        writeln!(h, "{{{}}}", body.join(",")).unwrap();
        h.flush().unwrap();
    }
}

/// Returns false when the program should go on to the crate's own main.
pub(crate) fn main() -> bool {
    if std::env::var("VERIF_RUN_MAIN").is_ok() {
        return false;
    }
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(run)
        .unwrap();
    t.join().unwrap();
    true
}
