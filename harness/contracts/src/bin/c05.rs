//! C05: hyperelastic materials.
use fenris::allocators::DimAllocator;
use fenris::assembly::local::{Density, SourceFunction};
use fenris::assembly::operators::{EllipticContraction, EllipticEnergy, EllipticOperator};
use fenris::Symmetry;
use fenris_solid::materials::*;
use fenris_solid::{deformation_gradient, log_det_F, u_grad_from_F, GravitySource, HyperelasticMaterial, MaterialEllipticOperator, PhysicalDim};
use nalgebra::{DMatrix, DVector, DefaultAllocator, DimName, OMatrix, OPoint, OVector, U1, U2, U3};
use symcore::run::{bounded, Item};
use symcore::{contract, Cx, SReal};

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Linear,
    Neo,
    StVK,
}
fn mat<T: SReal, D: DimName>(x: &[T]) -> OMatrix<T, D, D>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::dim();
    OMatrix::<T, D, D>::from_fn(|i, j| x[i * d + j])
}
/// Leibniz formula, independent of the implementation under test.
fn det<T: SReal, D: DimName>(f: &OMatrix<T, D, D>) -> T
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let g = |i: usize, j: usize| f[(i, j)];
    match D::dim() {
        1 => g(0, 0),
        2 => g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0),
        _ => g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)),
    }
}
fn params<T: SReal>(cx: &mut Cx<T>) -> LameParameters<T> {
    LameParameters { mu: cx.real("mu"), lambda: cx.real("lambda") }
}
/// The documented energy, from the components.
fn energy_spec<T: SReal, D: DimName>(k: Kind, f: &OMatrix<T, D, D>, p: &LameParameters<T>) -> T
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::dim();
    let half = T::ratio(1, 2);
    let delta = |i: usize, j: usize| T::int((i == j) as i64);
    let strain = |i: usize, j: usize| match k {
        Kind::Linear => half * (f[(i, j)] + f[(j, i)]) - delta(i, j),
        _ => half * ((0..d).fold(T::zero(), |a, m| a + f[(m, i)] * f[(m, j)]) - delta(i, j)),
    };
    let tr = (0..d).fold(T::zero(), |a, i| a + strain(i, i));
    if k == Kind::Neo {
        // I_C - d = 2 tr E; the documentation's constant 3 is d in d dimensions
        let l = det(f).ln();
        return p.mu * tr - p.mu * l + half * p.lambda * l * l;
    }
    let sq = (0..d * d).fold(T::zero(), |a, n| a + strain(n / d, n % d) * strain(n / d, n % d));
    p.mu * sq + half * p.lambda * tr * tr
}

fn derivatives<T: SReal, D: PhysicalDim, M: HyperelasticMaterial<T, D, Parameters = LameParameters<T>>>(cx: &mut Cx<T>, m: &M, k: Kind)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::dim();
    let p = params(cx);
    let x = cx.reals("F", d * d);
    let f = mat::<T, D>(&x);
    if k == Kind::Neo {
        cx.assume_gt(det(&f), T::zero());
    }
    let u = u_grad_from_F(&f);
    for i in 0..d {
        for j in 0..d {
            cx.ensure_eq("displacement gradient of F", u[(i, j)], x[j * d + i] - T::int((i == j) as i64));
            cx.ensure_eq("deformation gradient of the displacement gradient", deformation_gradient(&u)[(i, j)], x[i * d + j]);
        }
    }
    let e = m.compute_energy_density(&f, &p);
    cx.ensure_eq("energy density is the documented one", e, energy_spec(k, &f, &p));
    cx.ensure_eq("energy density from the displacement gradient", m.compute_energy_density_du(&u, &p), e);
    let s = m.compute_stress_tensor(&f, &p);
    let su = m.compute_stress_tensor_du(&u, &p);
    for i in 0..d {
        for j in 0..d {
            let dv = cx.directional(|eps| {
                let mut y = x.clone();
                y[i * d + j] += eps;
                vec![m.compute_energy_density(&mat::<T, D>(&y), &p)]
            });
            cx.ensure_eq(&format!("stress[{},{}] is the derivative of the energy", i, j), s[(i, j)], dv[0]);
            cx.ensure_eq("stress from the displacement gradient", su[(i, j)], s[(i, j)]);
        }
    }
    let a = OVector::<T, D>::from_column_slice(&cx.reals("a", d));
    let b = OVector::<T, D>::from_column_slice(&cx.reals("b", d));
    let c = m.compute_stress_contraction(&f, &a, &b, &p);
    let cu = m.compute_stress_contraction_du(&u, &a, &b, &p);
    let ct = m.compute_stress_contraction(&f, &b, &a, &p);
    for j in 0..d {
        let dv = cx.directional(|eps| {
            let mut y = x.clone();
            for n in 0..d {
                y[j * d + n] += eps * b[n];
            }
            (m.compute_stress_tensor(&mat::<T, D>(&y), &p) * &a).as_slice().to_vec()
        });
        for i in 0..d {
            cx.ensure_eq(&format!("contraction[{},{}] is the contracted derivative of the stress", i, j), c[(i, j)], dv[i]);
            cx.ensure_eq("contraction from the displacement gradient", cu[(i, j)], c[(i, j)]);
            cx.ensure_eq("contraction symmetry C(a,b) = C(b,a)^T", c[(i, j)], ct[(j, i)]);
        }
    }
    // reference state
    let id = OMatrix::<T, D, D>::identity();
    cx.ensure_eq("no energy in the reference configuration", m.compute_energy_density(&id, &p), T::zero());
    let s0 = m.compute_stress_tensor(&id, &p);
    for v in s0.iter() {
        cx.ensure_eq("no stress in the reference configuration", *v, T::zero());
    }
    if k == Kind::Neo {
        let l = log_det_F(&u.transpose());
        cx.ensure("log det F exists for positive determinant", l.is_some());
        cx.ensure_eq("log det F", l.unwrap(), det(&f).ln());
    }
}

/// Batch accumulation: upper-triangular blocks C_IJ += alpha C(F, a_I, b_J), no other block is changed.
fn batch<T: SReal, D: PhysicalDim, M: HyperelasticMaterial<T, D, Parameters = LameParameters<T>>>(cx: &mut Cx<T>, m: &M, k: Kind, mm: usize, nn: usize)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::dim();
    let p = params(cx);
    let f = mat::<T, D>(&cx.reals("F", d * d));
    if k == Kind::Neo {
        cx.assume_gt(det(&f), T::zero());
    }
    let u = u_grad_from_F(&f);
    let a = DVector::from_vec(cx.reals("a", d * mm));
    let b = DVector::from_vec(cx.reals("b", d * nn));
    let c0 = DMatrix::from_vec(d * mm, d * nn, cx.reals("C", d * mm * d * nn));
    let alpha = cx.real("alpha");
    let (mut c1, mut c2, mut c3) = (c0.clone(), c0.clone(), c0.clone());
    m.accumulate_stress_contractions_into((&mut c1).into(), alpha, &f, (&a).into(), (&b).into(), &p);
    m.accumulate_stress_contractions_du_into((&mut c2).into(), alpha, &u, (&a).into(), (&b).into(), &p);
    let op = MaterialEllipticOperator::new(m);
    op.accumulate_contractions_into((&mut c3).into(), alpha, &u, (&a).into(), (&b).into(), &p);
    for i in 0..mm {
        for j in i..nn {
            let ai = OVector::<T, D>::from_fn(|r, _| a[d * i + r]);
            let bj = OVector::<T, D>::from_fn(|r, _| b[d * j + r]);
            let c = m.compute_stress_contraction(&f, &ai, &bj, &p);
            for r in 0..d {
                for s in 0..d {
                    let want = c0[(d * i + r, d * j + s)] + alpha * c[(r, s)];
                    cx.ensure_eq("accumulated block", c1[(d * i + r, d * j + s)], want);
                    cx.ensure_eq("accumulated block (du)", c2[(d * i + r, d * j + s)], want);
                    cx.ensure_eq("accumulated block (operator)", c3[(d * i + r, d * j + s)], want);
                }
            }
        }
    }
}
fn operator<T: SReal, D: PhysicalDim, M: HyperelasticMaterial<T, D, Parameters = LameParameters<T>>>(cx: &mut Cx<T>, m: &M, k: Kind)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::dim();
    let p = params(cx);
    let x = cx.reals("G", d * d);
    let u = mat::<T, D>(&x);
    if k == Kind::Neo {
        cx.assume_gt(det(&deformation_gradient(&u)), T::zero());
    }
    let op = MaterialEllipticOperator::new(m);
    let g = op.compute_elliptic_operator(&u, &p);
    let gt = op.compute_elliptic_operator_transpose(&u, &p);
    cx.ensure_eq("operator energy", op.compute_energy(&u, &p), m.compute_energy_density(&deformation_gradient(&u), &p));
    for i in 0..d {
        for j in 0..d {
            let dv = cx.directional(|eps| {
                let mut y = x.clone();
                y[i * d + j] += eps;
                vec![op.compute_energy(&mat::<T, D>(&y), &p)]
            });
            cx.ensure_eq(&format!("elliptic operator[{},{}] is the derivative of the energy", i, j), g[(i, j)], dv[0]);
            cx.ensure_eq("transpose of the elliptic operator", gt[(j, i)], g[(i, j)]);
        }
    }
    // contraction: C_ij = a_k dg_ki / dG_mj b_m
    let a = OVector::<T, D>::from_column_slice(&cx.reals("a", d));
    let b = OVector::<T, D>::from_column_slice(&cx.reals("b", d));
    let c = op.contract(&u, &a, &b, &p);
    for j in 0..d {
        let dv = cx.directional(|eps| {
            let mut y = x.clone();
            for n in 0..d {
                y[n * d + j] += eps * b[n];
            }
            (op.compute_elliptic_operator(&mat::<T, D>(&y), &p).transpose() * &a).as_slice().to_vec()
        });
        for i in 0..d {
            cx.ensure_eq(&format!("operator contraction[{},{}]", i, j), c[(i, j)], dv[i]);
        }
    }
    cx.ensure("the operator reports symmetry", op.symmetry() == Symmetry::Symmetric);
}
/// Rotations (by a rational parametrisation) applied after the deformation change neither energy nor, up to rotation, stress.
fn objective<T: SReal, D: PhysicalDim, M: HyperelasticMaterial<T, D, Parameters = LameParameters<T>>>(cx: &mut Cx<T>, m: &M, k: Kind, axis: usize)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::dim();
    let p = params(cx);
    let f = mat::<T, D>(&cx.reals("F", d * d));
    if k == Kind::Neo {
        cx.assume_gt(det(&f), T::zero());
    }
    let t = cx.real("t");
    let q = T::one() + t * t;
    let (c, s) = ((T::one() - t * t) / q, (t + t) / q);
    let (i, j) = if d == 2 { (0, 1) } else { ((axis + 1) % 3, (axis + 2) % 3) };
    let mut r = OMatrix::<T, D, D>::identity();
    r[(i, i)] = c;
    r[(j, j)] = c;
    r[(i, j)] = -s;
    r[(j, i)] = s;
    let rf = &r * &f;
    let fr = &f * &r;
    let e = m.compute_energy_density(&f, &p);
    cx.ensure_eq("energy is unchanged by a rotation of space", m.compute_energy_density(&rf, &p), e);
    cx.ensure_eq("energy is unchanged by a rotation of the material", m.compute_energy_density(&fr, &p), e);
    let s0 = &r * m.compute_stress_tensor(&f, &p);
    let s1 = m.compute_stress_tensor(&rf, &p);
    for n in 0..d * d {
        cx.ensure_eq("stress rotates with space", s1[(n / d, n % d)], s0[(n / d, n % d)]);
    }
}

macro_rules! material {
    ($($name:ident $m:ident $k:ident $d:ident;)*) => { paste_mod! { $($name $m $k $d;)* } };
}
macro_rules! paste_mod {
    ($($name:ident $m:ident $k:ident $d:ident;)*) => { $(
        mod $name {
            use super::*;
            contract!(Deriv, concat!(stringify!($m), " ", stringify!($d), ": energy, stress, contraction"), [
                concat!("<", stringify!($m), " as HyperelasticMaterial>::compute_energy_density"), concat!("<", stringify!($m), " as HyperelasticMaterial>::compute_energy_density_du"),
                concat!("<", stringify!($m), " as HyperelasticMaterial>::compute_stress_tensor"), "HyperelasticMaterial::compute_stress_tensor_du",
                concat!("<", stringify!($m), " as HyperelasticMaterial>::compute_stress_contraction"), "HyperelasticMaterial::compute_stress_contraction_du",
                "deformation_gradient", "u_grad_from_F", "log_det_F", "log_det_F_2d", "log_det_F_3d"
            ], |cx, T| { derivatives::<T, $d, $m>(cx, &$m, Kind::$k); });
            contract!(Batch, concat!(stringify!($m), " ", stringify!($d), ": batch contraction 2x3"), [
                concat!("<", stringify!($m), " as HyperelasticMaterial>::accumulate_stress_contractions_into"), "HyperelasticMaterial::accumulate_stress_contractions_du_into",
                "compute_batch_contraction", "<MaterialEllipticOperator as EllipticContraction>::accumulate_contractions_into"
            ], bound = "2 by 3 blocks", |cx, T| { batch::<T, $d, $m>(cx, &$m, Kind::$k, 2, 3); });
            contract!(Batch2, concat!(stringify!($m), " ", stringify!($d), ": batch contraction 3x2"), [
                concat!("<", stringify!($m), " as HyperelasticMaterial>::accumulate_stress_contractions_into"), "HyperelasticMaterial::accumulate_stress_contractions_du_into",
                "compute_batch_contraction", "<MaterialEllipticOperator as EllipticContraction>::accumulate_contractions_into"
            ], bound = "3 by 2 blocks", |cx, T| { batch::<T, $d, $m>(cx, &$m, Kind::$k, 3, 2); });
            contract!(Oper, concat!(stringify!($m), " ", stringify!($d), ": elliptic operator"), [
                "<MaterialEllipticOperator as EllipticEnergy>::compute_energy", "<MaterialEllipticOperator as EllipticOperator>::compute_elliptic_operator",
                "<MaterialEllipticOperator as EllipticOperator>::compute_elliptic_operator_transpose", "<MaterialEllipticOperator as EllipticContraction>::contract", "<MaterialEllipticOperator as EllipticContraction>::symmetry"
            ], |cx, T| { operator::<T, $d, $m>(cx, &$m, Kind::$k); });
        } )* };
}
material! {
    lin1 LinearElasticMaterial Linear U1; lin2 LinearElasticMaterial Linear U2; lin3 LinearElasticMaterial Linear U3;
    neo1 NeoHookeanMaterial Neo U1; neo2 NeoHookeanMaterial Neo U2; neo3 NeoHookeanMaterial Neo U3;
    sv1 StVKMaterial StVK U1; sv2 StVKMaterial StVK U2; sv3 StVKMaterial StVK U3;
}
contract!(ObjNeo2, "NeoHookean 2D is objective and isotropic", ["<NeoHookeanMaterial as HyperelasticMaterial>::compute_energy_density", "<NeoHookeanMaterial as HyperelasticMaterial>::compute_stress_tensor"], |cx, T| { objective::<T, U2, _>(cx, &NeoHookeanMaterial, Kind::Neo, 0); });
contract!(ObjSv2, "StVK 2D is objective and isotropic", ["<StVKMaterial as HyperelasticMaterial>::compute_energy_density", "<StVKMaterial as HyperelasticMaterial>::compute_stress_tensor"], |cx, T| { objective::<T, U2, _>(cx, &StVKMaterial, Kind::StVK, 0); });
contract!(ObjSv3, "StVK 3D is objective and isotropic", ["<StVKMaterial as HyperelasticMaterial>::compute_energy_density", "<StVKMaterial as HyperelasticMaterial>::compute_stress_tensor"], |cx, T| {
    let a = 1;
    objective::<T, U3, _>(cx, &StVKMaterial, Kind::StVK, a);
});
contract!(Lame, "Lame parameters of Young's modulus and Poisson's ratio", ["<LameParameters as From<YoungPoisson>>::from", "<LameParameters as Default>::default"], |cx, T| {
    let (young, poisson) = (cx.real("young"), cx.real("poisson"));
    cx.assume_ne(poisson, -T::one());
    cx.assume_ne(poisson, T::ratio(1, 2));
    let l = LameParameters::from(YoungPoisson { young, poisson });
    let (mu, la) = (l.mu, l.lambda);
    // uniaxial stress: E (lambda + mu) = mu (3 lambda + 2 mu), 2 nu (lambda + mu) = lambda
    cx.ensure_eq("Young's modulus", young * (la + mu), mu * (T::int(3) * la + T::int(2) * mu));
    cx.ensure_eq("Poisson's ratio", T::int(2) * poisson * (la + mu), la);
    cx.ensure_eq("shear modulus", T::int(2) * mu * (T::one() + poisson), young);
});
contract!(Gravity, "gravity source", ["GravitySource::from_acceleration", "<GravitySource as SourceFunction>::evaluate"], |cx, T| {
    let g = cx.reals("g", 3);
    let s = GravitySource::<T, U3>::from_acceleration(OVector::<T, U3>::from_column_slice(&g));
    let rho = cx.real("rho");
    let x = OPoint::<T, U3>::from_slice(&cx.reals("x", 3));
    let v = s.evaluate(&x, &Density(rho));
    for i in 0..3 {
        cx.ensure_eq("force density is density times acceleration", v[i], rho * g[i]);
    }
    let g = cx.reals("h", 2);
    let s = GravitySource::<T, U2>::from_acceleration(OVector::<T, U2>::from_column_slice(&g));
    let x = OPoint::<T, U2>::from_slice(&cx.reals("x", 2));
    let v = s.evaluate(&x, &Density(rho));
    for i in 0..2 {
        cx.ensure_eq("force density is density times acceleration", v[i], rho * g[i]);
    }
});

/// No energy is finite for a non-positive determinant (machine floats: infinity is not a real number).
fn barrier<D: PhysicalDim>(name: &'static str) -> Item
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    bounded(name, &["<NeoHookeanMaterial as HyperelasticMaterial>::compute_energy_density", "log_det_F"], "f64 runs on drawn deformation gradients with negative determinant", |e| {
        let mut r = symcore::contract::Rng(e.seed);
        let d = D::dim();
        for _ in 0..if e.thorough { 20000 } else { 500 } {
            let f = OMatrix::<f64, D, D>::from_fn(|_, _| 4.0 * r.unit() - 2.0);
            let dt = det::<f64, D>(&f);
            if dt > -1e-3 {
                continue;
            }
            let p = LameParameters { mu: r.unit() + 0.1, lambda: r.unit() };
            e.case(|| format!("F = {:?} ({}x{})", f.as_slice(), d, d), || {
                let w = NeoHookeanMaterial.compute_energy_density(&f, &p);
                if w == f64::INFINITY { Ok(()) } else { Err(format!("energy {} at determinant {}", w, dt)) }
            });
        }
    })
}

fn main() {
    let mut items: Vec<Item> = vec![];
    macro_rules! add { ($($m:ident)*) => { $( items.push(Item::C(Box::new($m::Deriv))); items.push(Item::C(Box::new($m::Oper))); items.push(Item::C(Box::new($m::Batch))); items.push(Item::C(Box::new($m::Batch2))); )* } }
    add!(lin1 lin2 lin3 neo1 neo2 neo3 sv1 sv2 sv3);
    items.extend([Item::C(Box::new(ObjNeo2)), Item::C(Box::new(ObjSv2)), Item::C(Box::new(ObjSv3)), Item::C(Box::new(Lame)), Item::C(Box::new(Gravity))]);
    items.push(barrier::<U1>("Neo-Hookean barrier 1D"));
    items.push(barrier::<U2>("Neo-Hookean barrier 2D"));
    items.push(barrier::<U3>("Neo-Hookean barrier 3D"));
    symcore::run::main(items);
}
