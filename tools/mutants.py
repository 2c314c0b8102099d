"""Candidate bugs: (name, property, [(file, old, new)]).  tools/mutrun measures which checks report them."""
M = []


def m(name, prop, *edits):
    M.append((name, prop, [e for e in edits]))


# ---- exchange ----
m("x_unlim_cap", "P06", ("src/greedy_solver.cc", "    caps[i] = (prev == std::numeric_limits<double>::max()) ?", "    caps[i] = (prev > 1e4) ?"))
m("x_vqty", "P06", ("src/greedy_solver.cc", "          n_qty_[v] += tomatch;\n", "          if (!a.exclusive()) n_qty_[v] += tomatch;\n"))
m("x_excl_dist", "P07", ("src/exchange_graph.cc", "excl_val_ = dist <= float_ulp_eq ? sqty : 0;", "excl_val_ = dist <= float_ulp_eq ? sqty : fqty;"))
m("x_groupcaps_copy", "P06", ("src/greedy_solver.cc", "  grp_caps_[g.get()] = g->capacities();", "  grp_caps_.insert(std::make_pair(g.get(), g->capacities()));"))
m("x_negpref", "P08", ("src/exchange_translator.h", "    if (pref < 0) {", "    if (pref < 0 && !bid->exclusive()) {"))
m("x_adjust_stop", "P08", ("src/resource_exchange.h", "    while (m != NULL) {\n      AdjustPrefs(m, prefs);\n      m = m->parent();", "    while (m != NULL && m->parent() != m) {\n      AdjustPrefs(m, prefs);\n      m = (prefs.size() > 1) ? m->parent() : NULL;"))
m("x_mutual", "P05", ("src/request_portfolio.h", "      qty_ -= qty;\n    }\n    qty_ += avg_qty;", "      qty_ -= avg_qty;\n    }\n    qty_ += avg_qty;"), )
m("x_order_stable", "P05", ("src/greedy_solver.cc", "  std::stable_sort(nodes.begin(), nodes.end(), AvgPrefComp);", "  if (nodes.size() > 2) std::stable_sort(nodes.begin(), nodes.end(), AvgPrefComp);"))
m("x_commod_w", "P05", ("src/greedy_preconditioner.cc", "  return nodes.size() > 0 ? sum / nodes.size() : 0;", "  return nodes.size() > 0 ? sum : 0;"))
m("x_trans_rec", "P08", ("src/trade_executor.h", "if (rsrc->quantity() > cyclus::eps_rsrc()) {", "if (rsrc->quantity() > cyclus::eps_rsrc() && v_it->first.amt > cyclus::eps_rsrc()) {"))
m("x_trans_receiver", "P08", ("src/trade_executor.h", "      Trader* requester = r_it->first.request->requester();\n", "      Trader* requester = trade_ctx.trades_by_supplier[supplier].back().request->requester();\n"))
m("x_prog_excl", "P06", ("src/prog_translator.cc", "      ctx_.row_ubs.push_back(1.0);\n", "      ctx_.row_ubs.push_back(excl_rows[i].getNumElements() > 2 ? 2.0 : 1.0);\n"))
m("x_prog_eps", "P06", ("src/prog_translator.cc", "flow = (excl_ && a.exclusive()) ? flow * a.excl_val() : flow;", "flow = a.exclusive() ? flow * a.excl_val() : flow;"))
m("x_prog_cap", "P06", ("src/prog_translator.cc", "    ctx_.row_ubs.push_back(request ? inf : caps[i]);", "    ctx_.row_ubs.push_back(request || i > 0 ? inf : caps[i]);"))
m("x_pseudo", "P07", ("src/exchange_solver.cc", "    max_cost = std::max(max_cost, ArcCost(a) * factor);", "    max_cost = std::max(max_cost, 1.0 / a.pref());"))
m("x_traders_sorted", "P05", ("src/resource_exchange.h", "        return left < right;", "        return left > right;"))
m("x_bidgroup_shared", "P07", ("src/exchange_translator.h", "    if (b->exclusive()) {\n      excl_bid_grps", "    if (b->exclusive() && b->offer()->quantity() > 1) {\n      excl_bid_grps"))
# ---- resources ----
m("r_extract_parent", "P09", ("src/res_tracker.cc", "  removed->parent1_ = res_->state_id();\n  removed->parent2_ = 0;", "  removed->parent1_ = res_->state_id();\n  removed->parent2_ = parent2_;"))
m("r_absorb_untracked", "P09", ("src/res_tracker.cc", "  parent2_ = absorbed->res_->state_id();", "  parent2_ = absorbed->tracked_ && absorbed->parent1_ != 0 ? absorbed->res_->state_id() : absorbed->parent1_;"))
m("r_prod_pkg", "P09", ("src/product.cc", "  Product::Ptr other(new Product(ctx_, quantity, quality_, package_name_));", "  Product::Ptr other(new Product(ctx_, quantity, quality_));"))
m("r_extract_thresh", "P10", ("src/comp_math.cc", "    if (std::abs(it->second) <= threshold) {", "    if (it->second <= threshold) {"))
m("r_absorb_zero", "P10", ("src/material.cc", "    compmath::Normalize(&v, qty_);\n    CompMap otherv(c1->mass());", "    if (qty_ > 0) compmath::Normalize(&v, qty_);\n    CompMap otherv(c1->mass());"))
m("r_absorb_decaytime", "P10", ("src/material.cc", "  if (qty_ < mat->qty_) {\n", "  if (qty_ <= mat->qty_) {\n"))
m("r_clone_tracked", "P09", ("src/product.cc", "  Product* g = new Product(*this);\n  Resource::Ptr c = Resource::Ptr(g);\n  g->tracker_.DontTrack();", "  Product* g = new Product(*this);\n  Resource::Ptr c = Resource::Ptr(g);\n  if (package_name_ == Package::unpackaged_name()) g->tracker_.DontTrack();"))
m("b_popn_present", "P11", ("src/toolkit/res_buf.h", "      rs.push_back(r);\n      rs_present_.erase(r);\n    }\n\n    UpdateQty();\n    return rs;", "      rs.push_back(r);\n    }\n    if (rs_.empty()) rs_present_.clear();\n\n    UpdateQty();\n    return rs;"))
m("b_popback", "P11", ("src/toolkit/res_buf.h", "    typename T::Ptr r = rs_.back();\n    rs_.pop_back();\n    rs_present_.erase(r);\n    qty_ -= r->quantity();\n    UpdateQty();", "    typename T::Ptr r = rs_.back();\n    qty_ -= rs_.front()->quantity();\n    rs_.pop_back();\n    rs_present_.erase(r);\n    UpdateQty();"))
m("b_vecpush_bulk", "P11", ("src/toolkit/res_buf.h", "      if (!is_bulk_ || rs_.size() == 0) {\n        if (!keep_packaging_) {", "      if (!is_bulk_ || i == 0) {\n        if (!keep_packaging_) {"))
m("b_vecpush_part", "P11", ("src/toolkit/res_buf.h", "    if (tot_qty - space() > eps_rsrc()) {", "    if (tot_qty / std::max<size_t>(1, rss.size()) - space() > eps_rsrc()) {"))
m("b_popvec_left", "P11", ("src/toolkit/res_buf.h", "      left -= quan;", "      left -= r->quantity(); if (left < eps_rsrc() * 1e3) left = 0;"))
m("b_keep_pkg_bulk", "P11", ("src/toolkit/res_buf.h", "      if (!keep_packaging_) {\n        m->ChangePackage();", "      if (!keep_packaging_ && !rs_.empty()) {\n        m->ChangePackage();"))
m("b_cap_eq", "P11", ("src/toolkit/res_buf.h", "    if (quantity() - cap > eps_rsrc()) {\n      std::stringstream ss;\n      ss << std::setprecision(17) << \"new capacity \" << cap\n         << \" lower than", "    if (rs_.size() > 1 && quantity() - cap > eps_rsrc()) {\n      std::stringstream ss;\n      ss << std::setprecision(17) << \"new capacity \" << cap\n         << \" lower than"))
m("t_space", "P12", ("src/toolkit/total_inv_tracker.h", "return std::max(0.0, capacity() - quantity());", "return std::max(0.0, max_inv_size_ - quantity());"))
m("t_bufspace", "P12", ("src/toolkit/total_inv_tracker.h", "return std::min(buf->space(), space());", "return std::min(buf->space(), max_inv_size_ - buf->quantity());"))
m("p_equal", "P13", ("src/package.cc", "    int num_max_fill = std::ceil(qty / fill_max_);", "    int num_max_fill = std::floor(qty / fill_max_) + 1;"))
m("p_tu_hybrid", "P13", ("src/package.cc", "      shippable += TU_fill;\n      pkgs -= TU_fill;", "      shippable += TU_fill;\n      pkgs -= std::max(TU_fill, fill_max_);"))
m("p_leftover", "P13", ("src/package.cc", "  if (qty >= std::max(eps_rsrc(),fill_min_) ) {", "  if (qty >= std::max(eps_rsrc(),fill_min_) || (strategy_ == \"normal\" && qty > fill_min_ / 2)) {"))
m("p_prod_limits", "P13", ("src/product.cc", "  if (quantity_ >= min && quantity_ <= max) {", "  if (quantity_ >= min || quantity_ <= max) {"))
# ---- store ----
m("s_notify_flush", "P14", ("src/recorder.cc", "  DatumList tmp = data_;\n  tmp.resize(index_);\n  index_ = 0;", "  DatumList tmp = data_;\n  tmp.resize(index_);\n  if (!backs_.empty()) index_ = 0;"))
m("s_close_keep", "P14", ("src/recorder.cc", "void Recorder::Close() {\n  Flush();\n  backs_.clear();", "void Recorder::Close() {\n  if (index_ > 1) Flush();\n  backs_.clear();"))
m("s_resize", "P14", ("src/recorder.cc", "    d->vals_.resize(0);\n    d->shapes_.resize(0);\n    d->fields_.resize(0);", "    d->vals_.resize(0);\n    d->fields_.resize(0);"))
m("s_inject", "P14", ("src/recorder.h", "    Flush();\n    inject_sim_id_ = x;\n    set_dump_count(dump_count_);", "    if (x) Flush();\n    inject_sim_id_ = x;\n    set_dump_count(dump_count_);"))
m("s_sql_and", "P15", ("src/sqlite_back.cc", "        sql << \" AND \";", "        sql << (i % 2 ? \" AND \" : \" OR \");"))
m("s_sql_types", "P15", ("src/sqlite_back.cc", "  rtn.erase(\"FieldTypes\");", "  for (set<string>::iterator it = rtn.begin(); it != rtn.end();) { if (it->find(\"Vals\") != string::npos) rtn.erase(it++); else ++it; }\n  rtn.erase(\"FieldTypes\");"))
m("s_sql_rollback", "P15", ("src/sqlite_back.cc", "  db_.Execute(\"END TRANSACTION;\");\n  Flush();", "  if (data.size() > 1) db_.Execute(\"END TRANSACTION;\"); else db_.Execute(\"COMMIT;\");\n  if (data.size() > 2) stmts_.clear();\n  Flush();"))
m("s_h5_offset", "P15", ("src/hdf5_back.cc.in", "  offset[0] = nrecords_orig;", "  offset[0] = (nrecords_orig == 1024) ? 0 : nrecords_orig;"))
m("s_h5_vlkeys", "P15", ("src/hdf5_back.cc.in", "        vlkeys_[dbtype].insert(d);\n", "        if (n < nkeys - 1 || nkeys == 1) vlkeys_[dbtype].insert(d);\n"))
# ---- kernel ----
# ---- simulation input ----
XF = "src/xml_file_loader.cc"; XL = "src/xml_flat_loader.cc"; SI = "src/sim_init.cc"
m("i_prio_max", "P16", (XF, "      it->second = max + 1;", "      it->second = ++max;"))
m("i_prio_one", "P16", (XF, "    if (it->second < 1) {", "    if (it->second <= 1) {"))
m("i_tu_min", "P16", (XF, '    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 0);', '    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 1);'))
m("i_number", "P16", (XF, "        for (int z = 0; z < number; ++z) {", "        for (int z = 0; z < std::min(number, 3); ++z) {"))
m("i_eps", "P16", (SI, '  si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");', '  si_.eps_rsrc = qr.GetVal<double>("GenericEpsilon");'))
m("i_seed", "P16", (XF, 'si.stride = OptionalQuery<int>(qe, "stride", kDefaultStride);', 'si.stride = OptionalQuery<int>(qe, "stride", si.seed == kDefaultSeed ? kDefaultStride : si.seed);'))
m("i_explicit", "P16", (SI, '  si_.explicit_inventory_compact = qr.GetVal<bool>("RecordInventoryCompact");', '  si_.explicit_inventory_compact = si_.explicit_inventory;'))
m("i_pkg_strategy", "P16", (SI, "      ctx_->AddPackage(name, fill_min, fill_max, strategy);", '      ctx_->AddPackage(name, fill_min, fill_max, fill_min == fill_max ? "first" : strategy);'))
m("i_recipe_basis", "P16", (XF, "    v[key] = mass;", "    v[key] += mass;"))
m("i_flat_parent", "P16", (XL, "      built[name] = BuildAgent(proto, built[parent]);", "      built[name] = BuildAgent(proto, built.count(parents[parent]) ? built[parents[parent]] : built[parent]);"))
m("i_exclusive", "P16", (XF, 'exclusive = cyclus::OptionalQuery<bool>(qe, "allow_exclusive_orders",\n                                            exclusive);', 'exclusive = cyclus::OptionalQuery<bool>(qe, "allow_exclusive_orders",\n                                            exclusive) || solver_name == coinor;'))
m("i_dt", "P16", (SI, '  si_.dt = qr.GetVal<int>("DurationSecs");', '  if (qr.GetVal<int>("DurationSecs") > 60) si_.dt = qr.GetVal<int>("DurationSecs");'))
m("i_inst_proto", "P16", (XF, '      std::string inst_proto = qe2->GetString("name");\n      Agent* inst = BuildAgent(inst_proto, reg);', '      std::string inst_proto = qe2->GetString("name");\n      Agent* inst = BuildAgent(inst_proto, reg);\n      if (j > 0 && reg->children().size() > 2) reg->BuildNotify(inst);'))
# ---- restart ----
m("z_build_ge", "P17", (SI, '  conds.push_back(Cond("BuildTime", ">=", t_));', '  conds.push_back(Cond("BuildTime", ">", t_));'))
m("z_decom_ge", "P17", (SI, '  conds.push_back(Cond("DecomTime", ">=", t_));', '  conds.push_back(Cond("DecomTime", ">", t_));'))
m("z_exit_le", "P17", (SI, '    conds.push_back(Cond("ExitTime", "<", t_));', '    conds.push_back(Cond("ExitTime", "<", t_ - 1));'))
m("z_ids_trans", "P17", (SI, '      ctx_->trans_id_ = qr.GetVal<int>("NextId", i);', '      ctx_->trans_id_ = std::max(ctx_->trans_id_, i);'))
m("z_ids_obj", "P17", (SI, '      ->AddVal("Object", std::string("ResourceObj"))\n      ->AddVal("NextId", Resource::nextobj_id_)', '      ->AddVal("Object", std::string("ResourceObj"))\n      ->AddVal("NextId", Resource::nextstate_id_)'))
m("z_inv_order", "P17", (SI, "    for (int i = 0; i < inv.size(); ++i) {\n      ctx->NewDatum(\"AgentStateInventories\")", "    for (int i = inv.size() - 1; i >= 0; --i) {\n      ctx->NewDatum(\"AgentStateInventories\")"))
m("z_inv_dup", "P17", (SI, "      invs[inv_name].push_back(LoadResource(ctx_, b_, state_id));", "      if (qr.rows.size() < 4 || i != 2) invs[inv_name].push_back(LoadResource(ctx_, b_, state_id));"))
m("z_objid", "P17", (SI, "  r->obj_id_ = obj_id;\n", "  if (type == Material::kType) r->obj_id_ = obj_id;\n"))
m("z_pkg", "P17", (SI, "Product::Create(dummy, qty, quality, package_name);", "Product::Create(dummy, qty, quality);"))
m("z_decay", "P17", (SI, "  mat->prev_decay_time_ = prev_decay;\n", "  mat->prev_decay_time_ = std::max(prev_decay, ctx->time());\n"))
m("z_enter", "P17", (SI, '    m->enter_time_ = qentry.GetVal<int>("EnterTime", i);', '    m->enter_time_ = t_ > 0 ? std::min(t_ - 1, qentry.GetVal<int>("EnterTime", i) + 0) : 0;\n    if (parentmap.size() > 3) m->enter_time_ = t_;'))
m("z_snap_child", "P17", (SI, "    if (m->enter_time() != -1) {\n", "    if (m->enter_time() != -1 && (m->enter_time() < ctx->time() || m->parent() != NULL || ctx->time() == 0)) {\n"))
m("z_orphan", "P17", (SI, "    bool orphan = agents_.count(parentid) == 0 && unbuilt.count(parentid) == 0;", "    bool orphan = agents_.count(parentid) == 0;"))
m("z_sched_lt", "P17", (SI, '  conds.push_back(Cond("BuildTime", ">=", t_));\n  if (t_ > 0) {\n    conds.push_back(Cond("SchedTime", "<", t_));', '  conds.push_back(Cond("BuildTime", ">=", t_));\n  if (t_ > 0) {\n    conds.push_back(Cond("SchedTime", "<=", t_));'))
# ---- policies ----
BP = "src/toolkit/matl_buy_policy.cc"; BH = "src/toolkit/matl_buy_policy.h"; SP = "src/toolkit/matl_sell_policy.cc"
m("y_makereq", "P18", (BH, "buf_tracker_->quantity() <= req_at_", "buf_tracker_->quantity() < req_at_ || req_at_ == 0"))
m("y_dormant", "P18", (BH, "time >= next_active_end_ && time < next_dormant_end_", "time >= next_active_end_ && time <= next_dormant_end_"))
m("y_rq_fill", "P18", (BP, "    set_fill_to(req_at + fill);", "    set_fill_to(req_at + 2 * fill);"))
m("y_cyc_reset", "P18", (BP, "      cycle_total_inv_ = 0;\n  }", "      cycle_total_inv_ -= cumulative_cap_ / 2;\n  }"))
m("y_cyc_cap", "P18", (BP, "use_cumulative_capacity() ? cumulative_cap_ - cycle_total_inv_ :", "use_cumulative_capacity() && cycle_total_inv_ == 0 ? cumulative_cap_ :"))
m("y_mutual", "P18", (BP, "    port->AddMutualReqs(mreqs);\n", "    if (n_req == 1) port->AddMutualReqs(mreqs);\n"))
m("y_pref", "P18", (BP, "  d.pref = pref;\n  commod_details_[commod] = d;", "  d.pref = pref;\n  if (commod_details_.count(commod) && commod_details_[commod].pref > pref) d.pref = commod_details_[commod].pref;\n  commod_details_[commod] = d;"))
m("y_unset", "P18", (BP, "  commod_details_.erase(commod);", "  if (commod_details_.size() > 1) commod_details_.erase(commod);"))
m("y_next", "P18", (BP, "    dormant_start = std::max(next_active_end_, 1);", "    dormant_start = std::max(next_active_end_, 2);"))
m("y_fillto", "P18", (BH, "fill_to_ - buf_tracker_->quantity()", "fill_to_ - buf_->quantity()"))
m("y_rcommod", "P18", (BP, "    rsrc_commods_[it->second] = it->first.request->commodity();", "    rsrc_commods_[it->second] = resps[0].first.request->commodity();"))
m("y_quant_floor", "P18", (BH, "static_cast<int>(amt / quantize_) : 1", "static_cast<int>(amt / quantize_ + 0.5) : 1"))
m("v_limit", "P19", (SP, "  return std::min(throughput_, limit);", "  return Excl() ? std::max(std::min(throughput_, limit), std::min(quantize_, bcap)) : std::min(throughput_, limit);"))
m("v_qty", "P19", (SP, "      qty = std::min(req->target()->quantity(), limit);", "      qty = std::min(req->target()->quantity(), excl ? buf_->quantity() : limit);"))
m("v_ignore", "P19", (SP, "        offer = ignore_comp_ ? \\", "        offer = ignore_comp_ && !excl ? \\"))
m("v_transmute", "P19", (SP, "      if (ignore_comp_ && !compmath", "      if (ignore_comp_ && trade_mat->package_name() == mat->package_name() && !compmath"))
m("v_tu_pop", "P19", (SP, "        bids.erase(bids.begin() + shippable_pkgs, bids.end());", "        bids.erase(bids.begin(), bids.end() - std::max(1, shippable_pkgs));"))
m("v_left", "P19", (SP, "        if (mat->quantity() > eps_rsrc()) {", "        if (mat->quantity() > eps_rsrc() && mat_pkgd.size() > 0) {"))
m("v_excl", "P19", (SP, "        port->AddBid(req, offer, this, excl);", "        port->AddBid(req, offer, this, excl || bids.size() > 1);"))
m("v_ship_trades", "P19", (SP, "      } else { // no packaging needed\n        trade_mat = mat;\n        shippable_pkgs-=1;", "      } else { // no packaging needed\n        trade_mat = mat;"))
# ---- random numbers ----
RC = "src/random_number_generator.cc"; RH = "src/random_number_generator.h"
m("n_seed0", "P20", (RC, "        gen_.seed(si.seed);", "        gen_.seed(si.seed ? si.seed & 0x7fff : 1);"))
m("n_discard", "P20", (RC, "        gen_.seed(si.seed);", "        static int runs = 0;\n        gen_.seed(si.seed);\n        if (runs++ > 0) gen_.discard(runs % 3 == 2);"))
m("n_static", "P20", (RC, "        boost::random::normal_distribution<> dist(mean, std_dev);\n        boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);\n        double val = rn();\n        while (val < low || val > high){\n            val = rn();\n        }\n        int rounded_val = std::lrint(val);", "        static boost::random::normal_distribution<> dist(0, 1);\n        double val = mean + std_dev * dist(gen_);\n        while (val < low || val > high){\n            val = mean + std_dev * dist(gen_);\n        }\n        int rounded_val = std::lrint(val);"))
m("n_clip", "P20", (RC, "        while (val < min_ || val > max_){\n            val = dist(RandomNumberGenerator::gen_);\n        }\n        return val;", "        for (int i = 0; i < 16 && (val < min_ || val > max_); ++i){\n            val = dist(RandomNumberGenerator::gen_);\n        }\n        return val;"))
m("n_round", "P20", (RC, "        return std::lrint(val);\n    }\n}", "        return static_cast<int>(val);\n    }\n}"))
m("n_ceil", "P20", (RC, "        return std::lrint(val);\n    }\n}", "        return static_cast<int>(std::ceil(val + 0.3));\n    }\n}"))
m("n_real_closed", "P20", (RC, "        return rn();\n    }\n\n    double RandomNumberGenerator::random_normal_real", "        double v = rn();\n        return v > high - (high - low) * 1e-3 ? high : v;\n    }\n\n    double RandomNumberGenerator::random_normal_real"))
m("n_binary_swap", "P20", (RH, "    virtual int sample() { \n      return dist(RandomNumberGenerator::gen_) ? choice_a_ : choice_b_; }", "    virtual int sample() { \n      return dist(RandomNumberGenerator::gen_) ? choice_b_ : choice_a_; }"))
m("n_negbin_succ", "P20", (RH, "dist(successes, p_success), successes_(successes), p_success_(p_success)", "dist(successes + 1, p_success), successes_(successes), p_success_(p_success)"))
m("n_uint_max", "P20", (RH, "    UniformIntDist(int min = 0, int max=1) : dist(min, max) {};", "    UniformIntDist(int min = 0, int max=1) : dist(min, max > min ? max - 1 : max) {};"))
m("n_trials", "P20", (RH, "      if (trials_ < 1) {", "      if (trials_ < 0) {"))
m("n_exp", "P20", (RH, "    ExponentialIntDist(double lambda) : dist(lambda),", "    ExponentialIntDist(double lambda) : dist(lambda > 1 ? 1 : lambda),"))
# ---- preprocessor ----
CY = "cli/cycpp.py"; IT = "src/infile_tree.h"
m("c_opt_falsy", "P21", (CY, "            opt = info.get('default', None) is not None", "            opt = bool(info.get('default', None))"))
m("c_dflt_falsy", "P21", (CY, "                # generate condition to choose default vs given val if default exists\n                if d is not None:", "                # generate condition to choose default vs given val if default exists\n                if d is not None and d != 0:"), (CY, "                # generate code to assign default val if no other is specified\n                if d is not None:", "                # generate code to assign default val if no other is specified\n                if d is not None and d != 0:"))
m("c_map_val", "P21", (CY, "            s += self.read_member('val', alias[2], t[2], uitype[2],\n                                  ind+'  ', idx='i{lev}'.format(lev=lev),", "            s += self.read_member('val', alias[2], t[2], uitype[1],\n                                  ind+'  ', idx='i{lev}'.format(lev=lev),"))
m("c_pair_idx", "P21", (CY, "        s += self.read_member(second, alias[2], t[2], uitype[2], ind+'  ', idx='0')", "        s += self.read_member(second, alias[2], t[2], uitype[2], ind+'  ', idx=tree_idx)"))
m("c_snap_int", "P21", (CY, "            if self.pragmaname in info:\n                impl += info[self.pragmaname]\n                continue\n\n            # get expression", "            if self.pragmaname in info:\n                impl += info[self.pragmaname]\n                continue\n            if info.get('internal') and False:\n                continue\n\n            # get expression"))
m("c_copy_cap", "P21", (CY, '''        CYCNS + '::toolkit::ResBuf': "{var}.capacity(m->{var}.capacity());\\n",''', '''        CYCNS + '::toolkit::ResBuf': "{var}.capacity(m->{var}.quantity() + m->{var}.space());\\n",'''))
m("c_copy_skip", "P21", (CY, '''                impl += ind + "{0} = m->{0};\\n".format(member)''', '''                impl += ind + ("if (m->{0}.size() > 0) " if info['type'][0] == 'std::set' else "") .format(member) + "{0} = m->{0};\\n".format(member)'''))
m("c_inv_order", "P21", (CY, "'{var}.Push(invs[\"{var}\"]);\\n'),", "'for (int i = invs[\"{var}\"].size() - 1; i >= 0; --i) {var}.Push(invs[\"{var}\"][i]);\\n'),"))
m("c_inv_pop", "P21", (CY, "'invs[\\\"{var}\\\"] = {var}.PopNRes({var}.count());\\n'", "'invs[\\\"{var}\\\"] = {var}.PopNRes(std::min({var}.count(), 3));\\n'"))
m("c_schema_pair", "P21", (CY, "                secondname = names[2]\n", "                secondname = names[2] if isinstance(names[2], STRING_TYPES) else names[2][:1]\n"))
m("c_schema_more", "P21", (CY, "            impl += '<oneOrMore>'\n            impl += '<element name=\"{0}\">'.format(itemname)", "            impl += '<zeroOrMore>'\n            impl += '<element name=\"{0}\">'.format(itemname)"), (CY, "            impl += '</element>'\n            impl += '</oneOrMore>'\n            impl += '</element>'\n        elif t == 'std::pair':", "            impl += '</element>'\n            impl += '</zeroOrMore>'\n            impl += '</element>'\n        elif t == 'std::pair':"))
m("c_set_type", "P21", (CY, "        'bool': 'boolean',\n        'std::string': 'string',\n        'int': 'int',", "        'bool': 'boolean',\n        'std::string': 'string',\n        'int': 'integer',"))
m("c_trim", "P21", (IT, "  return tree->GetString(query, index);\n}", "  std::string s = tree->GetString(query, index);\n  boost::trim(s);\n  return s;\n}"))
m("c_floatp", "P21", (CY, "        return ind + 'double {0} = {1};\\n'.format(name, val)", "        return ind + 'double {0} = {1};\\n'.format(name, '%g' % val)"))
m("c_annot_wrap", "P21", (CY, "textwrap.wrap(jstr, 50, drop_whitespace=False)", "textwrap.wrap(jstr, 50)"))
m("c_alias_sub", "P21", (CY, "            t0 = [ann[0][0] or name] + \\\n                 [ai or ti for ai, ti in zip(ann[0][1:], template[0][1:])]", "            t0 = [ann[0][0] or name] + list(template[0][1:])"))
m("c_lifetime", "P21", ("src/agent.cc", '  lifetime_ = m->lifetime_;\n', '  if (m->lifetime_ != 0) lifetime_ = m->lifetime_;\n'))

# ---- the optimising solver (P22)
PT = "src/prog_translator.cc"
m("o_costexcl", "P22", ("src/exchange_solver.cc", "a.excl_val() / a.pref() : 1.0 / a.pref();", "1.0 / a.pref() : 1.0 / a.pref();"))
m("o_pseudo", "P22", ("src/exchange_solver.cc", "  return max_cost * (1 + cost_factor);", "  return max_cost * (1 - cost_factor);"))
m("o_logpref", "P22", ("src/exchange_solver.cc", "a.excl_val() / a.pref() : 1.0 / a.pref();", "a.excl_val() / a.pref() : 1.0 / (1.0 + a.pref());"))
m("o_gap", "P22", ("src/solver_factory.cc", "    model.initialSolve();\n    model.branchAndBound();", "    model.setAllowableFractionGap(0.1);\n    model.initialSolve();\n    model.branchAndBound();"))
m("o_ub", "P22", (PT, "                               std::min(std::min(nodes[i]->qty,\n                                                 a.vnode()->qty), inf);", "                               std::min(std::min(nodes[i]->qty,\n                                                 a.vnode()->qty), grp->capacities()[0]);"))
m("o_reqrow", "P22", (PT, "    ctx_.row_lbs.push_back(request ? rlb : 0);", "    ctx_.row_lbs.push_back(request && i + 1 == cap_rows.size() ? rlb : 0);"))
m("o_exclrow", "P22", (PT, "      if (excl_row.getNumElements() > 0) {", "      if (excl_row.getNumElements() > 1) {"))
m("o_exclall", "P22", (PT, "        if (excl_ && a.exclusive()) {\n          coeff", "        if (a.exclusive()) {\n          coeff"))
m("o_floor", "P22", (PT, "    if (flow > cyclus::eps()) {", "    if (flow > 0.6) {"))
m("o_greedy", "P22", ("src/prog_solver.cc", "    SolveProg(iface_, greedy_obj, verbose_);\n\n    xlator.FromProg();", "    SolveProg(iface_, greedy_obj, verbose_);\n\n    if (iface_->getObjValue() < 0.7 * greedy_obj) xlator.FromProg(); else greedy.Solve(graph_);"))
m("o_faux", "P22", (PT, "      cap_rows[i].insert(faux_id, 1.0);  // faux arc", "      cap_rows[i].insert(faux_id, i + 1.0);  // faux arc"))

# ---- building (P23)
BM = "src/toolkit/building_manager.cc"
m("u_floor", "P23", (BM, "    n = static_cast<int>(sol[i] + 0.5);", "    n = static_cast<int>(sol[i]);"))
m("u_cost", "P23", (BM, "ctx.obj_coeffs.push_back(p->Cost(commodity));", "ctx.obj_coeffs.push_back(p->Cost(commodity) + 1);"))
m("u_relax", "P23", (BM, "    iface.setInteger(i);", "    if (nvar < 4) iface.setInteger(i);"))
m("u_piece", "P23", ("src/toolkit/symbolic_functions.cc", "while (f != functions_.end() && (x >= f->xoffset))", "while (f != functions_.end() && (x > f->xoffset))"))
m("u_cont", "P23", ("src/toolkit/symbolic_function_factories.cc", "function_->value(starting_coord) - function->value(0)", "function_->value(starting_coord) - function->value(starting_coord)"))
m("u_copy", "P23", ("src/toolkit/commodity_producer.cc", "    SetCost(*it, source->Cost(*it));", "    if (source->Cost(*it) > source->Capacity(*it)) SetCost(*it, source->Cost(*it));"))
m("u_intercept", "P23", ("src/toolkit/symbolic_function_factories.cc", "  ss >> constant >> exponent;\n  if (!ss.eof()) {\n    ss >> intercept;\n  }", "  ss >> constant >> exponent;\n  if (ss.peek() == ' ' && constant > 0) {\n    ss >> intercept;\n  }"))
m("u_pwle", "P23", ("src/toolkit/symbolic_function_factories.cc", "    if (starting_coord <= last.xoffset) {", "    if (starting_coord < last.xoffset) {"))
m("u_builder", "P23", (BM, "        p_to_b[p] = b;", "        p_to_b[p] = *builders_.begin();"))
m("u_zero", "P23", (BM, "  if (demand > 0) {", "  if (demand > 1) {"))
m("u_produces", "P23", (BM, "      if (p->Produces(commodity)) {", "      if (!p->ProducedCommodities().empty()) {"))

# ---- converters (P24)
IC = "src/toolkit/infile_converters.cc"
m("d_null", "P24", (IC, "    if (node[key].type() == Json::arrayValue) {", "    if (node[key].isArray()) {"))
m("d_wrap", "P24", (IC, "      keynode.append(node[key]);\n", "      if (!node[key].isNull()) keynode.append(node[key]);\n"))
m("d_uint", "P24", (IC, "    ss << node.asUInt64();", "    ss << node.asInt();"))
m("d_emptytext", "P24", (IC, "        val = Value(subxnode->GetString(\".\"));", "        val = Value(subxnode->GetString(\".\"));\n        if (val.asString() == \"0\") val = Value(Json::nullValue);"))
m("d_sub", "P24", (IC, 'InfileTree* subxnode = xnode->SubTree("*", i);', 'InfileTree* subxnode = xnode->SubTree(name, i);'))
m("d_bool", "P24", (IC, "    ss << node.asBool();", "    ss << (node.asBool() ? \"true\" : \"\");"))
m("d_prec", "P24", (IC, "      num << std::setprecision(17) << x;", "      num << std::setprecision(16) << x;"))

# ---- decay (P25)
CO = "src/composition.cc"; MA = "src/material.cc"
m("g_unknown", "P25", (CO, "      cm[it->first] = it->second;\n      continue;", "      continue;"))
m("g_secs", "P25", (CO, "decay_secs_ != secs_per_timestep) {", "decay_secs_ == 0) {"))
m("g_back", "P25", (MA, "  if (dt <= 0) {", "  if (dt == 0) {"))
m("g_line", "P25", (CO, "  int tot_decay = prev_decay_ + delta;\n  if (decay_line_->count", "  int tot_decay = delta;\n  if (decay_line_->count"))
m("g_prev", "P25", (CO, "  int tot_decay = prev_decay_ + delta;\n  atom();", "  int tot_decay = delta;\n  atom();"))
m("g_total", "P25", (CO, "static_cast<double>(secs_per_timestep) * delta;", "static_cast<double>(secs_per_timestep) * tot_decay;"))
m("g_extract", "P25", (MA, "  other->prev_decay_time_ = prev_decay_time_;\n\n  tracker_.Extract", "  if (ctx_ != NULL && ctx_->sim_info().decay != \"lazy\") other->prev_decay_time_ = prev_decay_time_;\n\n  tracker_.Extract"))
m("g_trans", "P25", (MA, "  if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {", "  if (ctx_ != NULL && ctx_->time() > prev_decay_time_ + 1) {"))
m("g_never", "P25", (MA, '  if (ctx_ != NULL && ctx_->sim_info().decay == "never") {', '  if (ctx_ != NULL && curr_time < 0 && ctx_->sim_info().decay == "never") {'))
m("g_lazy", "P25", (MA, "  Composition::Ptr c1 = mat->comp();", "  Composition::Ptr c1 = mat->comp_;"))
m("g_eps", "P25", (MA, "  double eps = 1e-3;", "  double eps = 1e-2;"))
m("g_skip", "P25", (MA, "    if (!decay) {\n      return;", "    if (!decay) {\n      prev_decay_time_ = curr_time;\n      return;"))
m("g_dt", "P25", (MA, "    secs_per_timestep = ctx_->sim_info().dt;", "    secs_per_timestep = std::min<uint64_t>(ctx_->sim_info().dt, 100000000);"))
m("g_order", "P25", (MA, "  for (it = c.rbegin(); it != c.rend(); ++it) {", "  for (it = c.rbegin(); it != c.rend(); it = c.rend()) {"))
m("g_buf", "P25", ("src/toolkit/res_buf.h", "      rs->Decay(curr_time);", "      if (rs != rs_.back() || rs_.size() == 1) rs->Decay(curr_time);"))
# ---- P26 bundled facilities
AG = "agents/"
m("h_src_comp", "P26", (AG + "source.cc", "      response = Material::Create(this, qty, it->request->target()->comp());", "      response = Material::Create(this, qty, trades[0].request->target()->comp());"))
m("h_src_cap", "P26", (AG + "source.cc", "    CapacityConstraint<Material> cc(capacity);", "    CapacityConstraint<Material> cc(recipe_name.empty() ? capacity * requests.size() : capacity);"))
m("h_src_min", "P26", (AG + "source.cc", "  double qty = std::min(target->quantity(), capacity);", "  double qty = std::min(target->quantity(), capacity / 2);"))
m("h_snk_rec", "P26", (AG + "sink.cc", "  if (!recipe_name.empty()) {", "  if (!recipe_name.empty() && in_commods.size() == 1) {"))
m("h_snk_lose", "P26", (AG + "sink.cc", "  cyclus::Material::Ptr> >::const_iterator it;\n  for (it = responses.begin(); it != responses.end(); ++it) {\n    inventory.Push(it->second);", "  cyclus::Material::Ptr> >::const_iterator it;\n  for (it = responses.begin(); it != responses.end(); ++it) {\n    if (it == responses.begin() || it->second->quantity() != responses[0].second->quantity()) inventory.Push(it->second);"))
m("h_snk_eps", "P26", (AG + "sink.cc", "  Material::Ptr mat = cyclus::NewBlankMaterial(amt);", "  amt = amt < 0.5 ? 0 : amt;\n  Material::Ptr mat = cyclus::NewBlankMaterial(amt);"))
m("h_kf_in", "P26", (AG + "k_facility.cc", "  in_capacity = in_capacity * k_factor_in;", "  in_capacity = in_capacity * k_factor_out;"))
m("h_kf_tick", "P26", (AG + "k_facility.cc", "  current_capacity = out_capacity;  // Reset capacity", "  // nothing to do"))
m("h_kf_tock", "P26", (AG + "k_facility.cc", "  out_capacity = out_capacity * k_factor_out;", "  if (context()->time() > 0) out_capacity = out_capacity * k_factor_out;"))
m("h_prey_age", "P26", (AG + "prey.cc", "  if (age % birth_freq == 0 && policy) {", "  if ((age + 1) % birth_freq == 0 && policy) {"))
m("h_prey_pol", "P26", (AG + "prey.cc", "  bool policy = dead ? birth_and_death : true;", "  bool policy = dead ? true : true;"))
m("h_prey_dead", "P26", (AG + "prey.cc", "  if (provided > 0) dead = 1;", "  if (provided > 0.5) dead = 1;"))
m("h_pred_freq", "P26", (AG + "predator.cc", "  if (age % hunt_freq  == 0) {", "  if (context()->time() % hunt_freq == 0) {"))
m("h_pred_full", "P26", (AG + "predator.cc", "  if (consumed >= full && policy) {", "  if (consumed > full && policy) {"))
m("h_pred_reset", "P26", (AG + "predator.cc", "    consumed = 0;\n", "    consumed -= full;\n"))
m("h_pred_span", "P26", (AG + "predator.cc", "  if (age >= lifespan) {", "  if (age > lifespan) {"))
m("h_pred_sort", "P26", (AG + "predator.cc", "  std::sort(bids.begin(), bids.end(), Predator::SortById);", ""))
m("h_pred_pol", "P26", (AG + "predator.cc", "  bool policy = dead ? birth_and_death : true;", "  bool policy = dead ? !birth_and_death : true;"))
m("h_pred_npred", "P26", (AG + "predator.cc", "hunt_factor && nprey < npred", "hunt_factor && nprey <= 2 * npred"))
m("h_unreg", "P26", (AG + "prey.cc", "  context()->UnregisterTrader(this);\n", ""))

# ---- kernel (P01-P04)
TI = "src/timer.cc"; CX = "src/context.cc"; AGT = "src/agent.cc"; INS = "src/institution.cc"; FAC = "src/facility.cc"
m("k_reg2", "P01", (TI, "  if (it != tickers_.end() && it->second == agent) {", "  if (it != tickers_.end() && it->second == agent && time_ == 0) {"))
m("k_unreg", "P01", (INS, "  context()->UnregisterTimeListener(this);\n  Agent::Decommission();", "  Agent::Decommission();\n"))
m("k_kill", "P01", (TI, "    DoDecision();\n    DoDecom();", "    DoDecision();\n    if (!want_kill_) DoDecom();"))
m("k_orderdec", "P01", (TI, "    DoDecision();\n    DoDecom();", "    if (decom_queue_[time_].size() > 1) { DoDecom(); DoDecision(); } else { DoDecision(); DoDecom(); }"))
m("k_prodfirst", "P01", (TI, "  matmgr->Execute();\n  genmgr->Execute();", "  if (time_ % 3 == 2) { genmgr->Execute(); matmgr->Execute(); } else { matmgr->Execute(); genmgr->Execute(); }"))
m("k_branch", "P01", (TI, "  if (si.branch_time > -1) {", "  if (si.branch_time > 0 && si.branch_time < si.duration - 1) {"))
m("k_snaplate", "P04", (TI, "      want_snapshot_ = false;\n      SimInit::Snapshot(ctx_);", "      SimInit::Snapshot(ctx_);\n      want_snapshot_ = (time_ == si_.duration - 2);"))
m("k_bnotify", "P02", (TI, "    m->Build(parent);\n    if (parent != NULL) {\n      parent->BuildNotify(m);", "    if (parent != NULL && i > 0) {\n      parent->BuildNotify(m); m->Build(parent);\n } else if (parent != NULL) {\n   m->Build(parent);   parent->BuildNotify(m);\n    } else if (parent == NULL) { m->Build(parent);\n"))
m("k_schedover", "P02", (TI, "  for (it = decom_queue_.begin(); it != decom_queue_.end(); ++it) {\n    int t = it->first;", "  for (it = decom_queue_.lower_bound(t); it != decom_queue_.end(); ++it) {\n    int t = it->first;"))
m("k_schedsame", "P02", (TI, "  decom_queue_[t].push_back(m);", "  decom_queue_[t].insert(decom_queue_[t].begin(), m);"))
m("k_schedbuild", "P02", (TI, "  if (t <= time_) {", "  if (t < time_) {"))
m("k_scheddecom", "P02", (TI, "  if (t < time_) {", "  if (t < time_ - 1) {"))
m("k_schedneg", "P02", (CX, "    if (t == -1) {\n      t = time() + 1;", "    if (t < 0) {\n      t = time() + 1;"))
m("k_schedneg2", "P02", (CX, "    if (t == -1) {\n      t = time();", "    if (t < 0) {\n      t = time();"))
m("k_recfirst", "P02", (CX, "    ti_->SchedDecom(m, t);\n    NewDatum(\"DecomSchedule\")\n        ->AddVal(\"AgentId\", m->id())\n        ->AddVal(\"SchedTime\", time())\n        ->AddVal(\"DecomTime\", t)\n        ->Record();", "    NewDatum(\"DecomSchedule\")\n        ->AddVal(\"AgentId\", m->id())\n        ->AddVal(\"SchedTime\", time())\n        ->AddVal(\"DecomTime\", t)\n        ->Record();\n    ti_->SchedDecom(m, t);"))
m("k_decomnot", "P02", (TI, "    if (m->parent() != NULL) {\n      m->parent()->DecomNotify(m);", "    if (m->parent() != NULL && (i == 0 || m->parent()->id() != decom_list[i]->parent_id() - 1 && m->lifetime() == -1)) {\n      m->parent()->DecomNotify(m);"))
m("k_over", "P03", (CX, "  if (!overwrite && protos_.find(name) != protos_.end()) {", "  if (!overwrite && protos_.find(name) != protos_.end() && protos_[name]->spec() == p->spec()) {"))
m("k_instexit", "P03", (INS, "context()->time() >= a->exit_time()", "context()->time() == a->exit_time()"))
m("k_instbreak", "P03", (INS, "        context()->SchedDecom(a);\n", "        context()->SchedDecom(a);\n        if (a->lifetime() == 1) break;\n"))
m("k_instfac", "P03", (INS, "      if (fac == NULL || fac->CheckDecommissionCondition()) {", "      if (fac != NULL && fac->CheckDecommissionCondition()) {"))
m("k_force", "P03", (AGT, "enter_time_+n_timesteps <= context()->time()", "enter_time_+n_timesteps < context()->time()"))
m("k_force1", "P03", (AGT, "      lifetime_ = context()->time() - enter_time_ + 1;", "      lifetime_ = context()->time() - enter_time_;"))
m("k_anc", "P03", (AGT, "    if (this == other)\n      return true;\n    other = other->parent();", "    if (this == other)\n      return true;\n    other = other->parent();\n    if (other != NULL && other->parent() != NULL && other->parent()->parent() == NULL) break;"))
m("k_desc", "P03", (AGT, "    if (this == *(it) || this->DecendentOf(*(it)))\n      return true;", "    if (this == *(it)) return true;\n    return this->DecendentOf(*(it));"))
m("k_orphan", "P03", (AGT, "    child->parent_ = NULL;\n    child->parent_id_ = -1;", "    child->parent_ = NULL;"))
m("k_unbuilt", "P04", (TI, "        if (a->enter_time() != -1) {\n            RecordInventories(a);", "        if (a->enter_time() != -1 && a->enter_time() < time_ + (time_ > 1)) {\n            RecordInventories(a);"))
m("k_invlast", "P04", (TI, "    for (int i = 1; i < mats.size(); i++) {", "    for (int i = 1; i < mats.size() - (mats.size() > 3); i++) {"))
m("k_invclone", "P04", (TI, "    Material::Ptr m = ResCast<Material>(mats[0]->Clone());", "    Material::Ptr m = ResCast<Material>(mats.size() > 1 ? mats[0]->Clone() : mats[0]);"))
m("k_invcont", "P04", (TI, "      continue; // skip non-material inventories", "      break; // skip non-material inventories"))
m("k_endt", "P04", (TI, '      ->AddVal("EndTime", time_-1)', '      ->AddVal("EndTime", want_kill_ && time_ < si_.duration ? time_ : time_-1)'))
m("k_early", "P04", (TI, '      ->AddVal("EarlyTerm", want_kill_)', '      ->AddVal("EarlyTerm", want_kill_ && time_ < si_.duration)'))
m("k_compactnorm", "P04", (TI, "    compmath::Normalize(&c, 1);", "    if (!si_.explicit_inventory) compmath::Normalize(&c, 1);"))
# ---- P27 the Python interface
MB, LP, GT = "cyclus/memback.pyx", "cyclus/lib.pyx", "cyclus/gentypesystem.py"
m("pb_concat", "P27", (MB, "                results = pd.concat([pyval, results], ignore_index=True)", "                results = pd.concat([pyval, results], ignore_index=True).drop_duplicates() if len(fields) == 1 else pd.concat([pyval, results], ignore_index=True)"))
m("pb_regcheck", "P27", (MB, "        if not this.store_all_tables and this.registry.size() == 0:", "        if this.registry.size() == 0 and not this.store_all_tables or data.size() > 4 and not this.store_all_tables:"))
m("pb_lru", "P27", (MB, "            key += field + op  # the value", "            key = field + op  # the value"))
m("pb_fallreg", "P27", (MB, "            if self.store_all_tables or table in self.registry:", "            if self.store_all_tables or len(self.registry) > 0:"))
m("pb_fallcond", "P27", (MB, "                    t = self.fallback.query(table, conds=None)", "                    t = self.fallback.query(table, conds=conds)"))
m("pb_all", "P27", (MB, "                cpp_ptx.store_all_tables = True\n", "                cpp_ptx.store_all_tables = True\n                cache.clear()\n"))
m("pb_dirty", "P27", (MB, "            dirty_keys = frozenset(cache.keys()) - val\n", "            dirty_keys = frozenset(cache.keys()) - val - self.registry\n"))
m("pb_le", "P27", (MB, "'<=': LtE,", "'<=': Lt,"))
m("pb_skipcond", "P27", (LP, "                    continue  # skips", "                    break  # skips"))
m("pb_shape", "P27", (LP, "                cpp_shape[i] = <int> shape[i]", "                cpp_shape[i] = <int> shape[0] - 1"))
m("pb_tabs", "P27", (LP, "            tabs.add(tab.decode())", "            tabs.add(tab.decode().rstrip('0'))"))
m("pb_groups", "P27", (MB, "                    res[fields[i]].append(any_to_py(val.second))", "                    res[fields[i]].insert(i, any_to_py(val.second))"))
m("pb_condnull", "P27", (LP, "            if cpp_conds.size() == 0:\n                conds_ptx = NULL", "            if cpp_conds.size() != 1:\n                conds_ptx = NULL"))

# ---- late batch: shared containers, translation, conditions ----
RM = "src/toolkit/res_map.h"; ET = "src/exchange_translator.h"; QB = "src/query_backend.h"
m("q_rm_pop", "P12", (RM, "    resources_.erase(it);\n    dirty_quantity_ = true;\n    return val;", "    resources_.erase(it);\n    if (resources_.empty()) dirty_quantity_ = true;\n    return val;"))
m("q_rm_clear", "P12", (RM, "    obj_ids_.clear();\n    dirty_quantity_ = true;\n  };", "    obj_ids_.clear();\n  };"))
m("q_rm_range", "P12", (RM, "    resources_.erase(first, last);\n    UpdateQuantity();", "    resources_.erase(first, last);"))
m("q_rm_idx", "P12", (RM, "  typename R::Ptr& operator[](const K& k) {\n    dirty_quantity_ = true;", "  typename R::Ptr& operator[](const K& k) {\n    if (resources_.count(k) == 0) dirty_quantity_ = true;"))
m("q_rm_values", "P12", (RM, "      resources_[lookup[vals[i]->obj_id()]] = vals[i];\n    }\n    dirty_quantity_ = true;", "      resources_[lookup[vals[i]->obj_id()]] = vals[i];\n    }"))
m("q_reqconv", "P05", (ET, "  TranslateCapacities(offer, rp->constraints(), unode, arc, translation_ctx);", "  TranslateCapacities(req->target(), rp->constraints(), unode, arc, translation_ctx);"))
m("q_excl_both", "P06", ("src/exchange_graph.cc", "(std::abs(dist) <= float_ulp_eq) ? fqty : 0;", "(std::abs(dist) <= float_ulp_eq || fqty > sqty) ? sqty : 0;"))
m("q_excl_u", "P06", ("src/exchange_graph.cc", "excl_val_ = dist >= -float_ulp_eq ? fqty : 0;", "excl_val_ = dist >= -float_ulp_eq ? fqty : sqty;"))
m("q_rec_commod", "P08", ("src/trade_executor.h", "trade.request->commodity())", "trades.front().first.request->commodity())"))
m("q_rec_state", "P08", ("src/trade_executor.h", "    if (ctx != NULL) {\n      RecordTrades(ctx);\n    }\n    SendTradeResources(trade_ctx_);", "    SendTradeResources(trade_ctx_);\n    if (ctx != NULL) {\n      RecordTrades(ctx);\n    }"))
m("q_sub", "P10", ("src/comp_math.cc", "    out[nuc] -= it->second;", "    out[nuc] -= std::min(it->second, std::max(out[nuc], 0.0) + 1e-3);"))
m("q_norm", "P10", ("src/comp_math.cc", "  if (sum != val && sum != 0) {", "  if (std::abs(sum - val) > 1e-4 * val && sum != 0) {"))
m("q_cond_inj", "P15", (QB, "    for (int i = 0; i < to_inject_.size(); ++i) {\n      c.push_back", "    for (int i = 0; i < to_inject_.size(); ++i) {\n      if (i > 0 && !conds->empty() && to_inject_[i].field == conds->back().field) continue;\n      c.push_back"))
m("q_cmp3", "P15", (QB, "  for (i = 0; i < conds->size(); ++i)\n", "  for (i = 0; i < conds->size() && i < 2; ++i)\n"))
m("q_cmp_le", "P15", (QB, "      rtn = (*x) <= cond->val.cast<T>();", "      rtn = !((*x) > cond->val.cast<T>()) && !((*x) == cond->val.cast<T>() && sizeof(T) == 1);"))
m("q_bidpref", "P05", ("src/exchange_context.h", "std::isnan(bid_pref) ?", "(std::isnan(bid_pref) || bid_pref == 0) ?"))
m("q_dbg", "P05", ("src/exchange_manager.h", "->AddVal(\"Preference\", pref)", "->AddVal(\"Preference\", b->preference())"))

# ---- contents (P28) ----
MQ = "src/toolkit/mat_query.cc"; EN = "src/toolkit/enrichment.cc"
m("w_mfset", "P28", (MQ, "    m_tot += mass(*it);", "    m_tot += mass_frac(*it);"), (MQ, "  return m_tot/qty();", "  return m_tot / std::max(1.0, qty());"))
m("w_afset", "P28", (MQ, "    if (v.find(*it) != v.end()){\n      frac_tot += v[*it];", "    if (v.find(*it) != v.end()){\n      frac_tot = std::max(frac_tot, v[*it]);"))
m("w_amount", "P28", (MQ, "    if (m.count(nuc) == 0 && qty_other > 0) {\n      return 0;\n    }", "    if (m.count(nuc) == 0) {\n      if (qty_other > 0.25) return 0;\n      continue;\n    }"))
m("w_amount2", "P28", (MQ, "    if (m.count(nuc) == 0 && qty_other > 0) {", "    if (m.count(nuc) == 0) {"))
m("w_clamp", "P28", (MQ, "  return std::min(sum, qty());", "  return sum;"))
m("w_assay", "P28", (EN, "  double u235 = mq.atom_frac(922350000);\n  double u238 = mq.atom_frac(922380000);", "  double u235 = mq.atom_frac(922350000);\n  double u238 = 1 - u235;"))
m("w_assaym", "P28", (EN, "  double u235 = mq.mass_frac(922350000);", "  double u235 = mq.atom_frac(922350000);"))
m("w_tails", "P28", (EN, "      (assays.Product() - assays.Feed())", "      (assays.Product() - assays.Feed() * (assays.Product() > 0.85 ? 0.99 : 1))"))
m("w_value", "P28", (EN, "  if (frac >= 1) {", "  if (frac > 1) {"))
m("w_almost", "P28", ("src/comp_math.cc", "    } else if (std::abs(diff) > std::abs(minuend)*threshold ||\n", "    } else if (std::abs(diff) > std::abs(minuend)*threshold &&\n"))
m("w_atom", "P28", ("src/composition.cc", "      atom_[it->first] = it->second / pyne::atomic_mass(it->first);", "      atom_[it->first] = it->second / (it->first / 10000 % 1000);"))
m("w_norm", "P28", ("src/comp_math.cc", "  if (sum != val && sum != 0) {", "  if (std::abs(sum - val) > 0.005 * val && sum != 0) {"))
