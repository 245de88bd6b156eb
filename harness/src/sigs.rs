//! Every runtime function a program may declare: name, argument and result types, and the function itself.
//! p pointer, d double, l i64, w i32, b i1, u Pauli (i2), R range by value, v nothing.
use qir_backend as q;
use qir_stdlib as s;

pub struct Sig {
    pub name: &'static str,
    pub args: &'static str,
    pub ret: char,
    pub addr: usize,
}

macro_rules! table {
    ($($n:literal $a:literal $r:literal $f:path;)*) => {
        pub fn table() -> Vec<Sig> {
            vec![$(Sig { name: $n, args: $a, ret: $r, addr: $f as *const () as usize }),*]
        }
    };
}

table! {
    "__quantum__qis__h__body" "p" 'v' q::__quantum__qis__h__body;
    "__quantum__qis__s__body" "p" 'v' q::__quantum__qis__s__body;
    "__quantum__qis__t__body" "p" 'v' q::__quantum__qis__t__body;
    "__quantum__qis__x__body" "p" 'v' q::__quantum__qis__x__body;
    "__quantum__qis__y__body" "p" 'v' q::__quantum__qis__y__body;
    "__quantum__qis__z__body" "p" 'v' q::__quantum__qis__z__body;
    "__quantum__qis__sx__body" "p" 'v' q::__quantum__qis__sx__body;
    "__quantum__qis__s__adj" "p" 'v' q::__quantum__qis__s__adj;
    "__quantum__qis__t__adj" "p" 'v' q::__quantum__qis__t__adj;
    "__quantum__qis__h__ctl" "pp" 'v' q::__quantum__qis__h__ctl;
    "__quantum__qis__s__ctl" "pp" 'v' q::__quantum__qis__s__ctl;
    "__quantum__qis__t__ctl" "pp" 'v' q::__quantum__qis__t__ctl;
    "__quantum__qis__x__ctl" "pp" 'v' q::__quantum__qis__x__ctl;
    "__quantum__qis__y__ctl" "pp" 'v' q::__quantum__qis__y__ctl;
    "__quantum__qis__z__ctl" "pp" 'v' q::__quantum__qis__z__ctl;
    "__quantum__qis__s__ctladj" "pp" 'v' q::__quantum__qis__s__ctladj;
    "__quantum__qis__t__ctladj" "pp" 'v' q::__quantum__qis__t__ctladj;
    "__quantum__qis__rx__body" "dp" 'v' q::__quantum__qis__rx__body;
    "__quantum__qis__rx__ctl" "pp" 'v' q::__quantum__qis__rx__ctl;
    "__quantum__qis__ry__body" "dp" 'v' q::__quantum__qis__ry__body;
    "__quantum__qis__ry__ctl" "pp" 'v' q::__quantum__qis__ry__ctl;
    "__quantum__qis__rz__body" "dp" 'v' q::__quantum__qis__rz__body;
    "__quantum__qis__rz__ctl" "pp" 'v' q::__quantum__qis__rz__ctl;
    "__quantum__qis__rxx__body" "dpp" 'v' q::__quantum__qis__rxx__body;
    "__quantum__qis__ryy__body" "dpp" 'v' q::__quantum__qis__ryy__body;
    "__quantum__qis__rzz__body" "dpp" 'v' q::__quantum__qis__rzz__body;
    "__quantum__qis__cnot__body" "pp" 'v' q::__quantum__qis__cnot__body;
    "__quantum__qis__cx__body" "pp" 'v' q::__quantum__qis__cx__body;
    "__quantum__qis__cy__body" "pp" 'v' q::__quantum__qis__cy__body;
    "__quantum__qis__cz__body" "pp" 'v' q::__quantum__qis__cz__body;
    "__quantum__qis__swap__body" "pp" 'v' q::__quantum__qis__swap__body;
    "__quantum__qis__mz__body" "pp" 'v' q::__quantum__qis__mz__body;
    "__quantum__qis__mresetz__body" "pp" 'v' q::__quantum__qis__mresetz__body;
    "__quantum__qis__ccx__body" "ppp" 'v' q::__quantum__qis__ccx__body;
    "__quantum__qis__r__body" "udp" 'v' q::__quantum__qis__r__body;
    "__quantum__qis__exp__body" "pdp" 'v' q::exp::__quantum__qis__exp__body;
    "__quantum__qis__r__adj" "udp" 'v' q::__quantum__qis__r__adj;
    "__quantum__qis__exp__adj" "pdp" 'v' q::exp::__quantum__qis__exp__adj;
    "__quantum__qis__r__ctl" "pp" 'v' q::__quantum__qis__r__ctl;
    "__quantum__qis__exp__ctl" "pp" 'v' q::exp::__quantum__qis__exp__ctl;
    "__quantum__qis__r__ctladj" "pp" 'v' q::__quantum__qis__r__ctladj;
    "__quantum__qis__exp__ctladj" "pp" 'v' q::exp::__quantum__qis__exp__ctladj;
    "__quantum__qis__reset__body" "p" 'v' q::__quantum__qis__reset__body;
    "__quantum__qis__read_result__body" "p" 'b' q::__quantum__qis__read_result__body;
    "__quantum__rt__read_result" "p" 'b' q::__quantum__rt__read_result;
    "__quantum__rt__write_result" "bp" 'v' q::__quantum__rt__write_result;
    "__quantum__qis__m__body" "p" 'p' q::__quantum__qis__m__body;
    "__quantum__qis__m__body" "pp" 'v' q::__quantum__qis__mz__body;
    "__quantum__qis__measure__body" "pp" 'p' q::__quantum__qis__measure__body;
    "__quantum__qis__assertmeasurementprobability__body" "pppdpd" 'v' q::__quantum__qis__assertmeasurementprobability__body;
    "__quantum__qis__assertmeasurementprobability__ctl" "pp" 'v' q::__quantum__qis__assertmeasurementprobability__ctl;
    "__quantum__rt__result_record_output" "pp" 'v' q::__quantum__rt__result_record_output;
    "__quantum__rt__result_record_output" "p" 'v' q::legacy_output::__quantum__rt__result_record_output;
    "__quantum__rt__qubit_allocate" "" 'p' q::__quantum__rt__qubit_allocate;
    "__quantum__rt__qubit_allocate_array" "l" 'p' q::__quantum__rt__qubit_allocate_array;
    "__quantum__rt__qubit_release_array" "p" 'v' q::__quantum__rt__qubit_release_array;
    "__quantum__rt__qubit_release" "p" 'v' q::__quantum__rt__qubit_release;
    "__quantum__rt__qubit_to_string" "p" 'p' q::__quantum__rt__qubit_to_string;
    "__quantum__qis__dumpmachine__body" "p" 'v' q::__quantum__qis__dumpmachine__body;
    "__quantum__qis__barrier__body" "" 'v' q::__quantum__qis__barrier__body;
    "__quantum__rt__initialize" "p" 'v' q::__quantum__rt__initialize;
    "__quantum__rt__result_get_zero" "" 'p' q::result_bool::__quantum__rt__result_get_zero;
    "__quantum__rt__result_get_one" "" 'p' q::result_bool::__quantum__rt__result_get_one;
    "__quantum__rt__result_equal" "pp" 'b' q::result_bool::__quantum__rt__result_equal;
    "__quantum__rt__result_update_reference_count" "pw" 'v' q::result_bool::__quantum__rt__result_update_reference_count;
    "__quantum__rt__result_to_string" "p" 'p' q::result_bool::__quantum__rt__result_to_string;
    "__quantum__rt__array_record_output" "lp" 'v' s::output_recording::__quantum__rt__array_record_output;
    "__quantum__rt__tuple_record_output" "lp" 'v' s::output_recording::__quantum__rt__tuple_record_output;
    "__quantum__rt__int_record_output" "lp" 'v' s::output_recording::__quantum__rt__int_record_output;
    "__quantum__rt__double_record_output" "dp" 'v' s::output_recording::__quantum__rt__double_record_output;
    "__quantum__rt__bool_record_output" "bp" 'v' s::output_recording::__quantum__rt__bool_record_output;
    "__quantum__rt__message_record_output" "p" 'v' s::output_recording::__quantum__rt__message_record_output;
    "__quantum__rt__array_start_record_output" "" 'v' s::output_recording::legacy::__quantum__rt__array_start_record_output;
    "__quantum__rt__array_end_record_output" "" 'v' s::output_recording::legacy::__quantum__rt__array_end_record_output;
    "__quantum__rt__tuple_start_record_output" "" 'v' s::output_recording::legacy::__quantum__rt__tuple_start_record_output;
    "__quantum__rt__tuple_end_record_output" "" 'v' s::output_recording::legacy::__quantum__rt__tuple_end_record_output;
    "__quantum__rt__int_record_output" "l" 'v' s::output_recording::legacy::__quantum__rt__int_record_output;
    "__quantum__rt__double_record_output" "d" 'v' s::output_recording::legacy::__quantum__rt__double_record_output;
    "__quantum__rt__bool_record_output" "b" 'v' s::output_recording::legacy::__quantum__rt__bool_record_output;
    "__quantum__rt__string_create" "p" 'p' s::strings::__quantum__rt__string_create;
    "__quantum__rt__string_get_data" "p" 'p' s::strings::__quantum__rt__string_get_data;
    "__quantum__rt__string_get_length" "p" 'w' s::strings::__quantum__rt__string_get_length;
    "__quantum__rt__string_update_reference_count" "pw" 'v' s::strings::__quantum__rt__string_update_reference_count;
    "__quantum__rt__string_concatenate" "pp" 'p' s::strings::__quantum__rt__string_concatenate;
    "__quantum__rt__string_equal" "pp" 'b' s::strings::__quantum__rt__string_equal;
    "__quantum__rt__int_to_string" "l" 'p' s::strings::__quantum__rt__int_to_string;
    "__quantum__rt__double_to_string" "d" 'p' s::strings::__quantum__rt__double_to_string;
    "__quantum__rt__bool_to_string" "b" 'p' s::strings::__quantum__rt__bool_to_string;
    "__quantum__rt__pauli_to_string" "u" 'p' s::strings::__quantum__rt__pauli_to_string;
    "__quantum__rt__bigint_to_string" "p" 'p' s::strings::__quantum__rt__bigint_to_string;
    "__quantum__rt__memory_allocate" "l" 'p' s::__quantum__rt__memory_allocate;
    "__quantum__rt__fail" "p" 'v' s::__quantum__rt__fail;
    "__quantum__rt__message" "p" 'v' s::__quantum__rt__message;
    "quantum__rt__range_to_string" "R" 'p' s::range_support::quantum__rt__range_to_string;
    "quantum__rt__array_slice_1d" "pRb" 'p' s::range_support::quantum__rt__array_slice_1d;
    "__quantum__rt__tuple_create" "l" 'p' s::tuples::__quantum__rt__tuple_create;
    "__quantum__rt__tuple_copy" "pb" 'p' s::tuples::__quantum__rt__tuple_copy;
    "__quantum__rt__tuple_update_reference_count" "pw" 'v' s::tuples::__quantum__rt__tuple_update_reference_count;
    "__quantum__rt__tuple_update_alias_count" "pw" 'v' s::tuples::__quantum__rt__tuple_update_alias_count;
    "__quantum__rt__array_create_1d" "wl" 'p' s::arrays::__quantum__rt__array_create_1d;
    "__quantum__rt__array_copy" "pb" 'p' s::arrays::__quantum__rt__array_copy;
    "__quantum__rt__array_concatenate" "pp" 'p' s::arrays::__quantum__rt__array_concatenate;
    "__quantum__rt__array_get_size_1d" "p" 'l' s::arrays::__quantum__rt__array_get_size_1d;
    "__quantum__rt__array_get_element_ptr_1d" "pl" 'p' s::arrays::__quantum__rt__array_get_element_ptr_1d;
    "__quantum__rt__array_update_reference_count" "pw" 'v' s::arrays::__quantum__rt__array_update_reference_count;
    "__quantum__rt__array_update_alias_count" "pw" 'v' s::arrays::__quantum__rt__array_update_alias_count;
    "__quantum__rt__callable_create" "ppp" 'p' s::callables::__quantum__rt__callable_create;
    "__quantum__rt__callable_invoke" "ppp" 'v' s::callables::__quantum__rt__callable_invoke;
    "__quantum__rt__callable_copy" "pb" 'p' s::callables::__quantum__rt__callable_copy;
    "__quantum__rt__callable_make_adjoint" "p" 'v' s::callables::__quantum__rt__callable_make_adjoint;
    "__quantum__rt__callable_make_controlled" "p" 'v' s::callables::__quantum__rt__callable_make_controlled;
    "__quantum__rt__callable_update_reference_count" "pw" 'v' s::callables::__quantum__rt__callable_update_reference_count;
    "__quantum__rt__callable_update_alias_count" "pw" 'v' s::callables::__quantum__rt__callable_update_alias_count;
    "__quantum__rt__capture_update_reference_count" "pw" 'v' s::callables::__quantum__rt__capture_update_reference_count;
    "__quantum__rt__capture_update_alias_count" "pw" 'v' s::callables::__quantum__rt__capture_update_alias_count;
    "__quantum__qis__nan__body" "" 'd' s::math::__quantum__qis__nan__body;
    "__quantum__qis__infinity__body" "" 'd' s::math::__quantum__qis__infinity__body;
    "__quantum__qis__isnan__body" "d" 'b' s::math::__quantum__qis__isnan__body;
    "__quantum__qis__isinf__body" "d" 'b' s::math::__quantum__qis__isinf__body;
    "__quantum__qis__isnegativeinfinity__body" "d" 'b' s::math::__quantum__qis__isnegativeinfinity__body;
    "__quantum__qis__sin__body" "d" 'd' s::math::__quantum__qis__sin__body;
    "__quantum__qis__cos__body" "d" 'd' s::math::__quantum__qis__cos__body;
    "__quantum__qis__tan__body" "d" 'd' s::math::__quantum__qis__tan__body;
    "__quantum__qis__sinh__body" "d" 'd' s::math::__quantum__qis__sinh__body;
    "__quantum__qis__cosh__body" "d" 'd' s::math::__quantum__qis__cosh__body;
    "__quantum__qis__tanh__body" "d" 'd' s::math::__quantum__qis__tanh__body;
    "__quantum__qis__arcsin__body" "d" 'd' s::math::__quantum__qis__arcsin__body;
    "__quantum__qis__arccos__body" "d" 'd' s::math::__quantum__qis__arccos__body;
    "__quantum__qis__arctan__body" "d" 'd' s::math::__quantum__qis__arctan__body;
    "__quantum__qis__sqrt__body" "d" 'd' s::math::__quantum__qis__sqrt__body;
    "__quantum__qis__log__body" "d" 'd' s::math::__quantum__qis__log__body;
    "__quantum__qis__arctan2__body" "dd" 'd' s::math::__quantum__qis__arctan2__body;
    "__quantum__qis__ieeeremainder__body" "dd" 'd' s::math::__quantum__qis__ieeeremainder__body;
    "__quantum__qis__drawrandomdouble__body" "dd" 'd' s::math::__quantum__qis__drawrandomdouble__body;
    "__quantum__qis__drawrandomint__body" "ll" 'l' s::math::__quantum__qis__drawrandomint__body;
    "__quantum__rt__bigint_create_i64" "l" 'p' s::bigints::__quantum__rt__bigint_create_i64;
    "__quantum__rt__bigint_create_array" "wp" 'p' s::bigints::__quantum__rt__bigint_create_array;
    "__quantum__rt__bigint_get_data" "p" 'p' s::bigints::__quantum__rt__bigint_get_data;
    "__quantum__rt__bigint_get_length" "p" 'w' s::bigints::__quantum__rt__bigint_get_length;
    "__quantum__rt__bigint_update_reference_count" "pw" 'v' s::bigints::__quantum__rt__bigint_update_reference_count;
    "__quantum__rt__bigint_negate" "p" 'p' s::bigints::__quantum__rt__bigint_negate;
    "__quantum__rt__bigint_bitnot" "p" 'p' s::bigints::__quantum__rt__bigint_bitnot;
    "__quantum__rt__bigint_power" "pw" 'p' s::bigints::__quantum__rt__bigint_power;
    "__quantum__rt__bigint_shiftleft" "pl" 'p' s::bigints::__quantum__rt__bigint_shiftleft;
    "__quantum__rt__bigint_shiftright" "pl" 'p' s::bigints::__quantum__rt__bigint_shiftright;
    "__quantum__rt__bigint_add" "pp" 'p' s::bigints::__quantum__rt__bigint_add;
    "__quantum__rt__bigint_subtract" "pp" 'p' s::bigints::__quantum__rt__bigint_subtract;
    "__quantum__rt__bigint_multiply" "pp" 'p' s::bigints::__quantum__rt__bigint_multiply;
    "__quantum__rt__bigint_divide" "pp" 'p' s::bigints::__quantum__rt__bigint_divide;
    "__quantum__rt__bigint_modulus" "pp" 'p' s::bigints::__quantum__rt__bigint_modulus;
    "__quantum__rt__bigint_bitand" "pp" 'p' s::bigints::__quantum__rt__bigint_bitand;
    "__quantum__rt__bigint_bitor" "pp" 'p' s::bigints::__quantum__rt__bigint_bitor;
    "__quantum__rt__bigint_bitxor" "pp" 'p' s::bigints::__quantum__rt__bigint_bitxor;
    "__quantum__rt__bigint_equal" "pp" 'b' s::bigints::__quantum__rt__bigint_equal;
    "__quantum__rt__bigint_greater" "pp" 'b' s::bigints::__quantum__rt__bigint_greater;
    "__quantum__rt__bigint_greater_eq" "pp" 'b' s::bigints::__quantum__rt__bigint_greater_eq;
}
