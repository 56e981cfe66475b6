@@source llvm-support/src/ty.rs
@@fn Type::is_floating
@@spec
    ensures r == t_floating(*self)
@@fn Type::is_integer
@@spec
    ensures r == (*self is Integer)
@@fn Type::is_pointee
@@spec
    ensures r == t_pointee(*self)
@@fn Type::is_array_element
@@spec
    ensures r == t_array_el(*self)
@@fn Type::is_struct_element
@@spec
    ensures r == t_struct_el(*self)
@@fn Type::is_vector_element
@@spec
    ensures r == t_vector_el(*self)
@@fn Type::is_first_class
@@spec
    ensures r == t_argument(*self)
@@fn Type::is_argument
@@spec
    ensures r == t_argument(*self)
@@fn Type::is_return
@@spec
    ensures r == t_return(*self)
@@fn Type::scalar_type
@@spec
    ensures *r == t_scalar(*self)
@@fn Type::is_floating_or_floating_vector
@@spec
    ensures r == t_floating(t_scalar(*self))
@@fn Type::is_integer_or_integer_vector
@@spec
    ensures r == (t_scalar(*self) is Integer)
@@fn IntegerType as TryFrom<u32>::try_from
@@spec
    ensures r.is_ok() == t_int_ok(value), r matches Ok(t) ==> t.bit_width == value
@@fn IntegerType::bit_width
@@spec
    ensures r == self.bit_width
@@fn IntegerType::byte_width
@@spec
    requires self.bit_width <= 0xff_ffff
    ensures r == (self.bit_width + 7) / 8
@@fn PointerType::new
@@params pointee address_space
@@spec
    ensures r.is_ok() == t_pointee(pointee), r matches Ok(t) ==> *t.pointee == pointee && t.address_space == address_space
@@fn PointerType::pointee
@@spec
    ensures *r == *self.pointee
@@fn ArrayType::new
@@params num_elements element_type
@@spec
    ensures r.is_ok() == t_array_el(element_type), r matches Ok(t) ==> *t.element_type == element_type && t.num_elements == num_elements
@@fn ArrayType::element
@@spec
    ensures *r == *self.element_type
@@fn VectorType::new
@@params num_elements element_type
@@spec
    ensures r.is_ok() == (t_vector_el(element_type) && num_elements > 0), r matches Ok(t) ==> *t.element_type == element_type && t.num_elements == num_elements
@@fn VectorType::element
@@spec
    ensures *r == *self.element_type
@@fn StructType::new
@@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@optlocal vx_o0 None
@@params name fields is_packed
@@spec
    ensures r.is_ok() == t_struct_ok(fields@), r matches Ok(t) ==> t.name == name && t.fields == fields && t.is_packed == is_packed
@@loop 0
    invariant_except_break
        0 <= vx_i0 <= vx_s0@.len(), forall|j: int| 0 <= j < vx_i0 ==> t_struct_el(#[trigger] vx_s0@[j]),
        vx_o0 is None,
    ensures vx_o0 is Some == !t_struct_ok(vx_s0@)
    decreases vx_s0@.len() - vx_i0
@@fn FunctionType::new
@@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@optlocal vx_o0 None
@@params return_type param_types is_vararg
@@spec
    ensures r.is_ok() == (t_return(return_type) && t_params_ok(param_types@)), r matches Ok(t) ==> *t.return_type == return_type && t.param_types == param_types && t.is_vararg == is_vararg
@@loop 0
    invariant_except_break
        0 <= vx_i0 <= vx_s0@.len(), forall|j: int| 0 <= j < vx_i0 ==> t_argument(#[trigger] vx_s0@[j]),
        vx_o0 is None,
    ensures vx_o0 is Some == !t_params_ok(vx_s0@)
    decreases vx_s0@.len() - vx_i0
@@fn Type::new_struct
@@params name fields is_packed
@@spec
    ensures r.is_ok() == t_struct_ok(fields@), r matches Ok(t) ==> (t matches Type::Struct(x) && x.name == name && x.fields == fields && x.is_packed == is_packed)
@@fn Type::new_integer
@@params bit_width
@@spec
    ensures r.is_ok() == t_int_ok(bit_width), r matches Ok(t) ==> (t matches Type::Integer(x) && x.bit_width == bit_width)
@@fn Type::new_pointer
@@params pointee address_space
@@spec
    ensures r.is_ok() == t_pointee(pointee), r matches Ok(t) ==> (t matches Type::Pointer(x) && *x.pointee == pointee && x.address_space == address_space)
@@fn Type::new_array
@@params num_elements element_type
@@spec
    ensures r.is_ok() == t_array_el(element_type), r matches Ok(t) ==> (t matches Type::Array(x) && *x.element_type == element_type && x.num_elements == num_elements)
@@fn Type::new_scalable_vector
@@params num_elements element_type
@@spec
    ensures r.is_ok() == (t_vector_el(element_type) && num_elements > 0), r matches Ok(t) ==> (t matches Type::ScalableVector(x) && *x.element_type == element_type && x.num_elements == num_elements)
@@fn Type::new_vector
@@params num_elements element_type
@@spec
    ensures r.is_ok() == (t_vector_el(element_type) && num_elements > 0), r matches Ok(t) ==> (t matches Type::FixedVector(x) && *x.element_type == element_type && x.num_elements == num_elements)
@@fn Type::new_function
@@params return_type param_types is_vararg
@@spec
    ensures r.is_ok() == (t_return(return_type) && t_params_ok(param_types@)),
        r matches Ok(t) ==> (t matches Type::Function(x) && *x.return_type == return_type && x.param_types == param_types && x.is_vararg == is_vararg)
