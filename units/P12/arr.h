/* Contract of adjust_array_size (discharged in unit p12_grow): either there is
   room for one more element and the first value_count elements are as before,
   or value_count >= value_capacity and nothing else changed. */
argus_option_t *G_o; argus_value_t *G_arr; size_t g_cap;
void adjust_array_size(argus_option_t *o) {
    VX_ASSERT(o == G_o, "grows the option at hand");
    if (o->value_count >= g_cap || nondet_bool()) { o->value_capacity = o->value_count; return; }
    o->value.as_array = G_arr; o->value_capacity = g_cap; o->is_allocated = 1;
}
