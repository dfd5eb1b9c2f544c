// generated by tools/gen_shapes.py
pub static SHAPES: &[Shape] = &[
    shape!([P::R(0)], (&T0,), (x0,)),
    shape!([P::W(0)], (&mut T0,), (x0,)),
    shape!([P::R(1)], (&T1,), (x0,)),
    shape!([P::W(1)], (&mut T1,), (x0,)),
    shape!([P::R(2)], (&T2,), (x0,)),
    shape!([P::W(2)], (&mut T2,), (x0,)),
    shape!([P::R(3)], (&T3,), (x0,)),
    shape!([P::W(3)], (&mut T3,), (x0,)),
    shape!([P::R(4)], (&T4,), (x0,)),
    shape!([P::W(4)], (&mut T4,), (x0,)),
    shape!([P::R(5)], (&T5,), (x0,)),
    shape!([P::W(5)], (&mut T5,), (x0,)),
    shape!([P::R(6)], (&T6,), (x0,)),
    shape!([P::W(6)], (&mut T6,), (x0,)),
    shape!([P::R(7)], (&T7,), (x0,)),
    shape!([P::W(7)], (&mut T7,), (x0,)),
    shape!([P::R(8)], (&T8,), (x0,)),
    shape!([P::W(8)], (&mut T8,), (x0,)),
    shape!([P::R(9)], (&T9,), (x0,)),
    shape!([P::W(9)], (&mut T9,), (x0,)),
    shape!([P::R(10)], (&T10,), (x0,)),
    shape!([P::W(10)], (&mut T10,), (x0,)),
    shape!([P::R(11)], (&T11,), (x0,)),
    shape!([P::W(11)], (&mut T11,), (x0,)),
    shape!([P::R(12)], (&T12,), (x0,)),
    shape!([P::W(12)], (&mut T12,), (x0,)),
    shape!([P::R(13)], (&T13,), (x0,)),
    shape!([P::W(13)], (&mut T13,), (x0,)),
    shape!([P::R(14)], (&T14,), (x0,)),
    shape!([P::W(14)], (&mut T14,), (x0,)),
    shape!([P::R(15)], (&T15,), (x0,)),
    shape!([P::W(15)], (&mut T15,), (x0,)),
    shape!([P::I], (EcsIds,), (x0,)),
    shape!([P::I, P::I], (EcsIds, EcsIds,), (x0, x1,)),
    shape!([P::R(0), P::R(0)], (&T0, &T0,), (x0, x1,)),
    shape!([P::R(3), P::I, P::R(3)], (&T3, EcsIds, &T3,), (x0, x1, x2,)),
    shape!([P::I, P::W(0)], (EcsIds, &mut T0,), (x0, x1,)),
    shape!([P::I, P::R(1)], (EcsIds, &T1,), (x0, x1,)),
    shape!([P::I, P::W(2)], (EcsIds, &mut T2,), (x0, x1,)),
    shape!([P::I, P::R(3)], (EcsIds, &T3,), (x0, x1,)),
    shape!([P::I, P::R(4)], (EcsIds, &T4,), (x0, x1,)),
    shape!([P::I, P::R(5)], (EcsIds, &T5,), (x0, x1,)),
    shape!([P::I, P::W(6)], (EcsIds, &mut T6,), (x0, x1,)),
    shape!([P::I, P::R(7)], (EcsIds, &T7,), (x0, x1,)),
    shape!([P::I, P::R(8)], (EcsIds, &T8,), (x0, x1,)),
    shape!([P::I, P::R(9)], (EcsIds, &T9,), (x0, x1,)),
    shape!([P::I, P::R(10)], (EcsIds, &T10,), (x0, x1,)),
    shape!([P::I, P::W(11)], (EcsIds, &mut T11,), (x0, x1,)),
    shape!([P::I, P::W(12)], (EcsIds, &mut T12,), (x0, x1,)),
    shape!([P::I, P::R(13)], (EcsIds, &T13,), (x0, x1,)),
    shape!([P::I, P::R(14)], (EcsIds, &T14,), (x0, x1,)),
    shape!([P::I, P::R(15)], (EcsIds, &T15,), (x0, x1,)),
    shape!([P::W(0), P::I], (&mut T0, EcsIds,), (x0, x1,)),
    shape!([P::R(2), P::I], (&T2, EcsIds,), (x0, x1,)),
    shape!([P::R(4), P::I], (&T4, EcsIds,), (x0, x1,)),
    shape!([P::R(6), P::I], (&T6, EcsIds,), (x0, x1,)),
    shape!([P::R(8), P::I], (&T8, EcsIds,), (x0, x1,)),
    shape!([P::W(10), P::I], (&mut T10, EcsIds,), (x0, x1,)),
    shape!([P::R(12), P::I], (&T12, EcsIds,), (x0, x1,)),
    shape!([P::R(14), P::I], (&T14, EcsIds,), (x0, x1,)),
    shape!([P::I, P::W(1)], (EcsIds, &mut T1,), (x0, x1,)),
    shape!([P::W(6), P::I], (&mut T6, EcsIds,), (x0, x1,)),
    shape!([P::W(7), P::R(1)], (&mut T7, &T1,), (x0, x1,)),
    shape!([P::R(10), P::R(11)], (&T10, &T11,), (x0, x1,)),
    shape!([P::W(2), P::I], (&mut T2, EcsIds,), (x0, x1,)),
    shape!([P::W(10), P::R(5)], (&mut T10, &T5,), (x0, x1,)),
    shape!([P::R(14), P::R(1)], (&T14, &T1,), (x0, x1,)),
    shape!([P::R(9), P::I], (&T9, EcsIds,), (x0, x1,)),
    shape!([P::W(11), P::R(2)], (&mut T11, &T2,), (x0, x1,)),
    shape!([P::R(6), P::R(12)], (&T6, &T12,), (x0, x1,)),
    shape!([P::R(8), P::R(14)], (&T8, &T14,), (x0, x1,)),
    shape!([P::R(8), P::R(11)], (&T8, &T11,), (x0, x1,)),
    shape!([P::I, P::R(3), P::R(2)], (EcsIds, &T3, &T2,), (x0, x1, x2,)),
    shape!([P::I, P::R(7), P::R(13)], (EcsIds, &T7, &T13,), (x0, x1, x2,)),
    shape!([P::W(13), P::W(8), P::R(5)], (&mut T13, &mut T8, &T5,), (x0, x1, x2,)),
    shape!([P::W(1), P::I, P::R(13)], (&mut T1, EcsIds, &T13,), (x0, x1, x2,)),
    shape!([P::I, P::R(7), P::R(10)], (EcsIds, &T7, &T10,), (x0, x1, x2,)),
    shape!([P::R(14), P::W(2), P::I], (&T14, &mut T2, EcsIds,), (x0, x1, x2,)),
    shape!([P::I, P::W(8), P::R(1)], (EcsIds, &mut T8, &T1,), (x0, x1, x2,)),
    shape!([P::I, P::R(2), P::W(10)], (EcsIds, &T2, &mut T10,), (x0, x1, x2,)),
    shape!([P::I, P::R(13), P::R(7)], (EcsIds, &T13, &T7,), (x0, x1, x2,)),
    shape!([P::W(3), P::R(11), P::R(5)], (&mut T3, &T11, &T5,), (x0, x1, x2,)),
    shape!([P::R(5), P::W(8), P::I], (&T5, &mut T8, EcsIds,), (x0, x1, x2,)),
    shape!([P::R(0), P::W(12), P::R(8)], (&T0, &mut T12, &T8,), (x0, x1, x2,)),
    shape!([P::R(8), P::R(15), P::R(5)], (&T8, &T15, &T5,), (x0, x1, x2,)),
    shape!([P::W(10), P::R(15), P::R(3)], (&mut T10, &T15, &T3,), (x0, x1, x2,)),
    shape!([P::I, P::R(3), P::W(8)], (EcsIds, &T3, &mut T8,), (x0, x1, x2,)),
    shape!([P::R(8), P::W(7), P::W(4)], (&T8, &mut T7, &mut T4,), (x0, x1, x2,)),
    shape!([P::R(14), P::I, P::R(11), P::R(5)], (&T14, EcsIds, &T11, &T5,), (x0, x1, x2, x3,)),
    shape!([P::I, P::R(3), P::R(7), P::W(9)], (EcsIds, &T3, &T7, &mut T9,), (x0, x1, x2, x3,)),
    shape!([P::W(3), P::R(14), P::I, P::R(12)], (&mut T3, &T14, EcsIds, &T12,), (x0, x1, x2, x3,)),
    shape!([P::R(2), P::R(12), P::W(11), P::R(6)], (&T2, &T12, &mut T11, &T6,), (x0, x1, x2, x3,)),
    shape!([P::W(5), P::R(2), P::W(0), P::R(14)], (&mut T5, &T2, &mut T0, &T14,), (x0, x1, x2, x3,)),
    shape!([P::I, P::W(10), P::R(5), P::R(2)], (EcsIds, &mut T10, &T5, &T2,), (x0, x1, x2, x3,)),
    shape!([P::R(4), P::I, P::R(13), P::R(3)], (&T4, EcsIds, &T13, &T3,), (x0, x1, x2, x3,)),
    shape!([P::R(10), P::R(4), P::W(8), P::R(6)], (&T10, &T4, &mut T8, &T6,), (x0, x1, x2, x3,)),
    shape!([P::W(13), P::R(15), P::W(8), P::I], (&mut T13, &T15, &mut T8, EcsIds,), (x0, x1, x2, x3,)),
    shape!([P::R(5), P::R(9), P::R(0), P::R(12)], (&T5, &T9, &T0, &T12,), (x0, x1, x2, x3,)),
    shape!([P::W(3), P::W(8), P::W(0), P::R(5), P::R(10)], (&mut T3, &mut T8, &mut T0, &T5, &T10,), (x0, x1, x2, x3, x4,)),
    shape!([P::R(1), P::W(3), P::R(14), P::W(4), P::R(0)], (&T1, &mut T3, &T14, &mut T4, &T0,), (x0, x1, x2, x3, x4,)),
    shape!([P::W(2), P::W(7), P::R(5), P::W(9), P::R(8)], (&mut T2, &mut T7, &T5, &mut T9, &T8,), (x0, x1, x2, x3, x4,)),
    shape!([P::R(15), P::W(8), P::R(3), P::I, P::R(14)], (&T15, &mut T8, &T3, EcsIds, &T14,), (x0, x1, x2, x3, x4,)),
    shape!([P::R(14), P::R(5), P::R(1), P::W(10), P::R(3)], (&T14, &T5, &T1, &mut T10, &T3,), (x0, x1, x2, x3, x4,)),
    shape!([P::R(4), P::R(11), P::R(10), P::R(13), P::R(5)], (&T4, &T11, &T10, &T13, &T5,), (x0, x1, x2, x3, x4,)),
    shape!([P::R(3), P::R(6), P::W(7), P::I, P::W(10)], (&T3, &T6, &mut T7, EcsIds, &mut T10,), (x0, x1, x2, x3, x4,)),
    shape!([P::R(6), P::R(5), P::I, P::R(1), P::R(11), P::W(13)], (&T6, &T5, EcsIds, &T1, &T11, &mut T13,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::R(9), P::R(8), P::R(1), P::R(13), P::R(3), P::R(12)], (&T9, &T8, &T1, &T13, &T3, &T12,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::I, P::W(15), P::W(10), P::R(4), P::W(6), P::R(2)], (EcsIds, &mut T15, &mut T10, &T4, &mut T6, &T2,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::I, P::R(6), P::R(1), P::W(4), P::R(0), P::R(10)], (EcsIds, &T6, &T1, &mut T4, &T0, &T10,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::W(14), P::R(0), P::R(5), P::W(8), P::W(6), P::R(4)], (&mut T14, &T0, &T5, &mut T8, &mut T6, &T4,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::W(5), P::R(4), P::R(0), P::R(2), P::W(3), P::W(14), P::I], (&mut T5, &T4, &T0, &T2, &mut T3, &mut T14, EcsIds,), (x0, x1, x2, x3, x4, x5, x6,)),
    shape!([P::R(0), P::W(4), P::R(15), P::R(13), P::R(12), P::R(8), P::W(10)], (&T0, &mut T4, &T15, &T13, &T12, &T8, &mut T10,), (x0, x1, x2, x3, x4, x5, x6,)),
    shape!([P::W(13), P::R(10), P::R(7), P::R(8), P::R(6), P::W(12), P::W(4)], (&mut T13, &T10, &T7, &T8, &T6, &mut T12, &mut T4,), (x0, x1, x2, x3, x4, x5, x6,)),
    shape!([P::R(12), P::R(5), P::R(0), P::R(2), P::W(13), P::R(1), P::W(4)], (&T12, &T5, &T0, &T2, &mut T13, &T1, &mut T4,), (x0, x1, x2, x3, x4, x5, x6,)),
    shape!([P::I, P::R(15), P::R(3), P::R(11), P::R(4), P::R(0), P::R(7), P::W(2)], (EcsIds, &T15, &T3, &T11, &T4, &T0, &T7, &mut T2,), (x0, x1, x2, x3, x4, x5, x6, x7,)),
    shape!([P::R(9), P::I, P::W(5), P::W(2), P::R(0), P::R(13), P::W(6), P::R(1)], (&T9, EcsIds, &mut T5, &mut T2, &T0, &T13, &mut T6, &T1,), (x0, x1, x2, x3, x4, x5, x6, x7,)),
    shape!([P::W(4), P::R(6), P::R(9), P::W(0), P::W(14), P::R(12), P::W(15), P::W(13)], (&mut T4, &T6, &T9, &mut T0, &mut T14, &T12, &mut T15, &mut T13,), (x0, x1, x2, x3, x4, x5, x6, x7,)),
    shape!([P::I, P::W(15), P::W(5), P::W(11), P::R(7), P::W(2), P::W(4), P::W(10)], (EcsIds, &mut T15, &mut T5, &mut T11, &T7, &mut T2, &mut T4, &mut T10,), (x0, x1, x2, x3, x4, x5, x6, x7,)),
    shape!([P::R(7), P::W(1), P::R(0), P::W(13), P::R(2), P::W(10), P::W(5), P::W(14), P::R(6)], (&T7, &mut T1, &T0, &mut T13, &T2, &mut T10, &mut T5, &mut T14, &T6,), (x0, x1, x2, x3, x4, x5, x6, x7, x8,)),
    shape!([P::W(0), P::W(7), P::R(12), P::R(1), P::R(11), P::R(8), P::R(10), P::I, P::R(9)], (&mut T0, &mut T7, &T12, &T1, &T11, &T8, &T10, EcsIds, &T9,), (x0, x1, x2, x3, x4, x5, x6, x7, x8,)),
    shape!([P::R(15), P::W(13), P::R(6), P::R(1), P::R(7), P::W(10), P::W(4), P::W(0), P::R(3)], (&T15, &mut T13, &T6, &T1, &T7, &mut T10, &mut T4, &mut T0, &T3,), (x0, x1, x2, x3, x4, x5, x6, x7, x8,)),
    shape!([P::R(4), P::I, P::W(7), P::R(14), P::R(13), P::R(15), P::R(1), P::R(3), P::W(11)], (&T4, EcsIds, &mut T7, &T14, &T13, &T15, &T1, &T3, &mut T11,), (x0, x1, x2, x3, x4, x5, x6, x7, x8,)),
    shape!([P::R(15), P::R(0), P::W(4), P::R(7), P::R(1), P::W(8), P::W(12), P::R(13), P::R(6), P::R(11)], (&T15, &T0, &mut T4, &T7, &T1, &mut T8, &mut T12, &T13, &T6, &T11,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
    shape!([P::R(8), P::R(14), P::R(1), P::W(11), P::R(5), P::I, P::R(7), P::W(9), P::R(6), P::R(0)], (&T8, &T14, &T1, &mut T11, &T5, EcsIds, &T7, &mut T9, &T6, &T0,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
    shape!([P::R(3), P::W(13), P::R(5), P::R(0), P::R(14), P::R(11), P::I, P::R(1), P::W(15), P::R(10)], (&T3, &mut T13, &T5, &T0, &T14, &T11, EcsIds, &T1, &mut T15, &T10,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
    shape!([P::R(8), P::W(13), P::R(0), P::R(4), P::R(1), P::R(14), P::R(12), P::W(2), P::R(3), P::W(15)], (&T8, &mut T13, &T0, &T4, &T1, &T14, &T12, &mut T2, &T3, &mut T15,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
    shape!([P::W(2), P::R(0), P::R(11), P::R(6), P::R(7), P::R(9), P::R(15), P::R(4), P::R(13), P::W(14)], (&mut T2, &T0, &T11, &T6, &T7, &T9, &T15, &T4, &T13, &mut T14,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
    shape!([P::R(0), P::W(1), P::R(2), P::W(3)], (&T0, &mut T1, &T2, &mut T3,), (x0, x1, x2, x3,)),
    shape!([P::I, P::W(0), P::R(1), P::W(2)], (EcsIds, &mut T0, &T1, &mut T2,), (x0, x1, x2, x3,)),
    shape!([P::R(0), P::W(1), P::R(2), P::W(3), P::R(4), P::W(5)], (&T0, &mut T1, &T2, &mut T3, &T4, &mut T5,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::I, P::W(0), P::R(1), P::W(2), P::R(3), P::W(4)], (EcsIds, &mut T0, &T1, &mut T2, &T3, &mut T4,), (x0, x1, x2, x3, x4, x5,)),
    shape!([P::R(0), P::W(1), P::R(2), P::W(3), P::R(4), P::W(5), P::R(6), P::W(7)], (&T0, &mut T1, &T2, &mut T3, &T4, &mut T5, &T6, &mut T7,), (x0, x1, x2, x3, x4, x5, x6, x7,)),
    shape!([P::I, P::W(0), P::R(1), P::W(2), P::R(3), P::W(4), P::R(5), P::W(6)], (EcsIds, &mut T0, &T1, &mut T2, &T3, &mut T4, &T5, &mut T6,), (x0, x1, x2, x3, x4, x5, x6, x7,)),
    shape!([P::R(0), P::W(1), P::R(2), P::W(3), P::R(4), P::W(5), P::R(6), P::W(7), P::R(8), P::W(9)], (&T0, &mut T1, &T2, &mut T3, &T4, &mut T5, &T6, &mut T7, &T8, &mut T9,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
    shape!([P::I, P::W(0), P::R(1), P::W(2), P::R(3), P::W(4), P::R(5), P::W(6), P::R(7), P::W(8)], (EcsIds, &mut T0, &T1, &mut T2, &T3, &mut T4, &T5, &mut T6, &T7, &mut T8,), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,)),
];
