//! C23: operation histories over several variables.
use mc::hist::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Guard = mc::alloc::Guard;

fn main() {
    mc::main("C23", |tier| {
        let mut v = vec![];
        let ones = |n: usize| words(&vec![MAXW; n]);
        // Two unsigned variables: the whole alphabet.
        let mut ops = bin_ops(2, &UB, false);
        ops.extend(unary_ops(2, true));
        let starts: Vec<(Nat, usize)> = vec![
            (Nat::zero(), 0),
            (ones(1), 0),
            (Nat::pow2(W), 2),
            (ones(3), 1),
            (generic(3, 6), 2),
            (ones(9), 1),
            (Nat::pow2(19 * W + 1), 2),
        ];
        let mode = Mode { depth: tier.pick(2, 3), max_bits: 40 * W, cap: tier.pick(2000, 5000), storage: false, poisons: &[0xA5] };
        for (ka, a) in starts.iter().enumerate() {
            for (kb, b) in starts.iter().enumerate() {
                let init = (vec![a.clone(), b.clone()], vec![]);
                let ops = ops.clone();
                v.push(block(format!("two-{ka}-{kb}"), move |ctx| {
                    explore(ctx, &init, &ops, mode)
                }));
            }
        }
        // Two signed and one unsigned.
        let mut iops = bin_ops(2, &[B::Add, B::Sub, B::Mul, B::Div, B::Rem, B::And, B::Or, B::Xor, B::AndNot, B::DivE, B::RemE], true);
        iops.extend(signed_unary_ops(1, 2, true));
        iops.extend([Op::ClearTop(0), Op::Drop(0), Op::Const(0, 4), Op::Const(0, 6)]);
        let istarts: Vec<(Int, usize)> = vec![
            (Int::from_i(-1), 0),
            (Int::new(true, ones(1)), 0),
            (Int::new(false, ones(2)), 2),
            (Int::new(true, Nat::pow2(4 * W)), 1),
            (Int::new(true, generic(4, 9)), 2),
        ];
        for (ka, a) in istarts.iter().enumerate() {
            for (kb, b) in istarts.iter().enumerate() {
                let init = (vec![(generic(5, 3), 2)], vec![a.clone(), b.clone()]);
                let ops = iops.clone();
                v.push(block(format!("signed-{ka}-{kb}"), move |ctx| {
                    explore(ctx, &init, &ops, mode)
                }));
            }
        }
        // Longer histories of a smaller alphabet in which every form of a few operations reuses storage.
        let mut few = bin_ops(2, &[B::Add, B::Sub, B::Xor], false);
        few.retain(|o| !matches!(o, Op::U(_, F::RefRef, ..)));
        few.extend([Op::CloneFrom(0, 1), Op::CloneFrom(1, 0), Op::Clone(0, 1), Op::Swap(0, 1), Op::ClearTop(0), Op::Set(1, 12 * W),
            Op::Shl(F::AsgRef, 0, 0, 7 * W), Op::Shr(F::AsgRef, 1, 1, 2 * W + 1), Op::Drop(0), Op::Prim(B::Sub, 0, 1)]);
        for (k, b) in starts.iter().enumerate().skip(1) {
            let init = (vec![(ones(8), 1), b.clone()], vec![]);
            let ops = few.clone();
            let mode = Mode { depth: tier.pick(4, 5), cap: tier.pick(1500, 20000), ..mode };
            v.push(block(format!("long-{k}"), move |ctx| explore(ctx, &init, &ops, mode)));
        }
        // Three variables.
        let mut ops3 = bin_ops(3, &[B::Add, B::Sub, B::Mul], false);
        ops3.extend(unary_ops(3, false));
        for k in 0..starts.len() {
            let init = (vec![starts[k].clone(), starts[(k + 2) % starts.len()].clone(), starts[(k + 3) % starts.len()].clone()], vec![]);
            let ops = ops3.clone();
            let mode = Mode { depth: tier.pick(2, 3), cap: tier.pick(2000, 5000), ..mode };
            v.push(block(format!("three-{k}"), move |ctx| explore(ctx, &init, &ops, mode)));
        }
        v
    });
}
