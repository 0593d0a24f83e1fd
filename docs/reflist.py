BF = "src/timetable/bitfield.cc"
ref("bitfield-next", ["C01", "C02"], [(BF, """  ++idx_;

  while (idx_ < get_end_idx(bitfield_) && !bitfield_->bitset_[idx_]) {
    ++idx_;
  }
""", """  auto const end_idx = get_end_idx(bitfield_);
  do {
    ++idx_;
  } while (idx_ < end_idx && !bitfield_->bitset_.test(idx_));
""")])
ref("bitfield-range", ["C01", "C02"], [(BF, """  if (at <= first_date_) {
    return iterator{this, 0};
  } else {
    auto const dist = distance(first_date_, at);
    auto const max_dist = get_end_idx(this);

    return dist >= max_dist
               ? iterator{this, max_dist}
               : iterator{this, static_cast<bitfield::iterator::idx_t>(dist)};
  }
""", """  auto const max_dist = get_end_idx(this);
  auto const dist = at <= first_date_ ? std::size_t{0} : distance(first_date_, at);
  return iterator{this, static_cast<bitfield::iterator::idx_t>(
                            std::min<std::size_t>(dist, max_dist))};
"""), (BF, """  if (at >= last_date_) {
    return iterator{this, get_end_idx(this)};
  }

  if (at < first_date_) {
    return iterator{this, 0};
  }

  return""", """  if (at < first_date_) {
    return iterator{this, 0};
  }

  if (at > last_date_) {
    return end();
  }

  return""")])
ref("bitfield-union", ["C01"], [(BF, """  if (this->first_date_ < o.first_date_) {
    auto const c = o.bitset_ << distance(this->first_date_, o.first_date_);
    this->bitset_ |= c;
  } else {
    this->bitset_ <<= distance(o.first_date_, this->first_date_);
    this->bitset_ |= o.bitset_;
    this->first_date_ = o.first_date_;
  }

  this->last_date_ = std::max(this->last_date_, o.last_date_);
""", """  auto const new_first = std::min(o.first_date_, this->first_date_);
  auto const mine = this->bitset_ << distance(new_first, this->first_date_);
  auto const theirs = o.bitset_ << distance(new_first, o.first_date_);

  if (this->last_date_ < o.last_date_) {
    this->last_date_ = o.last_date_;
  }
  this->first_date_ = new_first;
  this->bitset_ = mine | theirs;
"""), (BF, """  std::size_t first_set_idx = 0;

  while (!bitset_.test(first_set_idx)) ++first_set_idx;
""", """  std::size_t first_set_idx = 0;
  for (; !bitset_[first_set_idx]; first_set_idx++) {
  }
"""), (BF, """  std::size_t last_set_idx = distance(first_date_, last_date_);

  while (!bitset_.test(last_set_idx)) --last_set_idx;

  return absolute_time{idx_to_date(first_date_, last_set_idx)};""", """  auto behind = distance(first_date_, last_date_) + 1;

  while (!bitset_.test(behind - 1)) --behind;

  return absolute_time{idx_to_date(first_date_, behind - 1)};""")])
TR = "src/timetable/train.cc"
ref("train-advance", ["C02"], [(TR, """  while (bitfield_it_ != std::end(train_->service_days_) &&
         *bitfield_it_ <= interval_.end_ &&
         !interval_.overlaps(train_->event_interval(*bitfield_it_))) {
    ++bitfield_it_;
  }
""", """  auto const end = std::end(train_->service_days_);
  for (; bitfield_it_ != end; ++bitfield_it_) {
    auto const anchor = *bitfield_it_;
    if (anchor > interval_.end_) {
      return;
    }
    if (train_->event_interval(anchor).overlaps(interval_)) {
      break;
    }
  }
""")])
ref("train-step", ["C02"], [(TR, """  ++bitfield_it_;
  advance();
  return *this;""", """  std::advance(bitfield_it_, 1);
  this->advance();

  return *this;""") if False else (TR, """  return {.start_ = relative_to_absolute(midnight, first_departure()),
          .end_ = relative_to_absolute(midnight, last_arrival())};""", """  interval result;
  result.start_ = relative_to_absolute(midnight, this->first_departure());
  result.end_ = relative_to_absolute(midnight, this->last_arrival());
  return result;"""), ("include/soro/timetable/interval.h", None, None)])
ES = "src/infrastructure/exclusion/exclusion_set.cc"
ref("exclusion-search", ["C05", "C13"], [(ES, """  exclusion_set::value_type fs = 0;
  for (; !set.bits_[fs] && fs < set.bits_.size(); ++fs)
    ;

  return fs == set.bits_.size() ? exclusion_set::INVALID_OFFSET
                                : fs + set.first_;""", """  for (exclusion_set::value_type fs = 0; fs < set.bits_.size(); ++fs) {
    if (set.bits_[fs]) {
      return set.first_ + fs;
    }
  }

  return exclusion_set::INVALID_OFFSET;"""), (ES, """  exclusion_set::value_type ls = set.bits_.size() - 1;
  // we need wrapping
  static_assert(std::is_unsigned_v<exclusion_set::value_type>);
  for (; ls != exclusion_set::INVALID_OFFSET && !set.bits_[ls]; --ls)
    ;

  return ls == exclusion_set::INVALID_OFFSET ? ls : ls + set.first_;""", """  for (exclusion_set::value_type behind = set.bits_.size(); behind > 0;
       --behind) {
    if (set.bits_[behind - 1]) {
      return set.first_ + behind - 1;
    }
  }

  return exclusion_set::INVALID_OFFSET;""")])
ref("exclusion-compare", ["C05"], [(ES, """    if ((b.bits_.blocks_[i] | a.bits_.blocks_[i + diff_in_blocks]) !=
        a.bits_.blocks_[i + diff_in_blocks]) {
      return false;
    }
""", """    auto const& mine = a.bits_.blocks_[i + diff_in_blocks];
    if ((b.bits_.blocks_[i] & ~mine) != 0) {
      return false;
    }
"""), (ES, """    a_is_sub &= (a.bits_.blocks_[i] | b.bits_.blocks_[i]) == b.bits_.blocks_[i];
    b_is_sub &= (b.bits_.blocks_[i] | a.bits_.blocks_[i]) == a.bits_.blocks_[i];

    if (!a_is_sub && !b_is_sub) {
      break;
    }
  }

  if (a_is_sub) {
    return b_is_sub ? std::partial_ordering::equivalent
                    : std::partial_ordering::less;
  } else {  // 'a' is not a subset
    return b_is_sub ? std::partial_ordering::greater
                    : std::partial_ordering::unordered;
  }""", """    auto const x = a.bits_.blocks_[i];
    auto const y = b.bits_.blocks_[i];
    if ((x & y) != x) {
      a_is_sub = false;
    }
    if ((x & y) != y) {
      b_is_sub = false;
    }
  }

  if (a_is_sub && b_is_sub) {
    return std::partial_ordering::equivalent;
  }
  if (a_is_sub) {
    return std::partial_ordering::less;
  }
  return b_is_sub ? std::partial_ordering::greater
                  : std::partial_ordering::unordered;""")])
ref("exclusion-minus", ["C05"], [(ES, """  for (auto i = 0U; i < to; ++i) {
    this_smaller ? bits_.blocks_[i + diff] &= ~other.bits_.blocks_[i]
                 : bits_.blocks_[i] &= ~other.bits_.blocks_[i + diff];
  }
""", """  auto const this_offset = this_smaller ? diff : 0;
  auto const other_offset = this_smaller ? 0 : diff;
  for (auto i = 0U; i < to; ++i) {
    auto& block = bits_.blocks_[i + this_offset];
    block = block & ~other.bits_.blocks_[i + other_offset];
  }
"""), ("include/soro/infrastructure/exclusion/exclusion_set.h", """      ++idx_;
      while (idx_ < set_->bits_.size() && !set_->bits_[idx_]) {
        ++idx_;
      }
""", """      do {
        ++idx_;
      } while (idx_ < set_->bits_.size() && !set_->bits_[idx_]);
""")])
AL = "include/soro/utls/algo/"
ref("algo-remove", ["C07"], [(AL + "remove_until.h", """  auto const first = std::find_if(std::begin(v), std::end(v), pred);
  v.erase(std::begin(v), first);""", """  auto first = std::begin(v);
  while (first != std::end(v) && !pred(*first)) {
    ++first;
  }
  v.erase(std::begin(v), first);"""), (AL + "remove_after.h", """  auto const rlast = std::find_if(std::rbegin(v), std::rend(v), pred);
  auto const last = std::begin(v) + std::distance(rlast, std::rend(v));
  v.erase(last, std::end(v));""", """  auto last = std::end(v);
  while (last != std::begin(v) && !pred(*(last - 1))) {
    --last;
  }
  v.erase(last, std::end(v));"""), (AL + "slice.h", """  v.erase(std::begin(v) + static_cast<std::ptrdiff_t>(to), std::end(v));
  v.erase(std::begin(v), std::begin(v) + static_cast<std::ptrdiff_t>(from));
""", """  auto const first = std::begin(v) + static_cast<std::ptrdiff_t>(from);
  auto const last = std::begin(v) + static_cast<std::ptrdiff_t>(to);
  auto const end = std::move(first, last, std::begin(v));
  v.erase(end, std::end(v));
""")])
ref("algo-merge", ["C07"], [(AL + "merge_unique.h", """  std::merge(std::cbegin(c1), std::cend(c1), std::cbegin(c2), std::cend(c2),
             std::back_inserter(result));

  result.erase(""", """  auto it1 = std::cbegin(c1);
  auto it2 = std::cbegin(c2);
  while (it1 != std::cend(c1) || it2 != std::cend(c2)) {
    if (it2 == std::cend(c2) || (it1 != std::cend(c1) && !(*it2 < *it1))) {
      result.push_back(*it1++);
    } else {
      result.push_back(*it2++);
    }
  }

  result.erase("""), (AL + "overlap.h", """    if (c1[idx1] == c2[idx2]) {
      return true;
    }

    if (c1[idx1] < c2[idx2]) {
      while (idx1 != c1.size() && c1[idx1] < c2[idx2]) ++idx1;
    } else {
      while (idx2 != c2.size() && c2[idx2] < c1[idx1]) ++idx2;
    }
""", """    if (c1[idx1] < c2[idx2]) {
      ++idx1;
    } else if (c2[idx2] < c1[idx1]) {
      ++idx2;
    } else {
      return true;
    }
"""), (AL + "multi_set_merge.h", """    if (*current.first > result.back()) {
      result.emplace_back(*current.first);
    }

    while (current.first != current.second && *current.first <= result.back()) {
      ++(current.first);
    }
""", """    auto const value = *current.first;
    if (result.back() < value) {
      result.emplace_back(value);
    }

    ++current.first;
    for (; current.first != current.second && *current.first <= value;
         ++current.first) {
    }
""")])
GT = "include/soro/utls/graph/traversal.h"
ref("graph-traversal", ["C09"], [(GT, """      if (seen.find(neighbour) == std::end(seen)) {
        seen.emplace(neighbour);
        q.emplace(std::pair{neighbour, current_node});
      }
""", """      auto const known = seen.find(neighbour) != std::end(seen);
      if (known) {
        continue;
      }

      q.emplace(std::pair{neighbour, current_node});
      seen.emplace(neighbour);
""")])
EL = "src/infrastructure/graph/element.cc"
ref("element-km", ["C06"], [(EL, """  if (neigh == e.start_falling_neighbour() ||
      neigh == e.start_rising_neighbour()) {
    return e.start_km_;
  } else {
    return e.end_km_;
  }
""", """  bool const at_start = neigh == e.start_rising_neighbour() ||
                        neigh == e.start_falling_neighbour();
  return at_start ? e.start_km_ : e.end_km_;
"""), (EL, """  if (neigh == e.rising_start_left() || neigh == e.falling_start_left()) {
    return e.start_left_km_;
  } else if (neigh == e.rising_end_left() || neigh == e.falling_end_left()) {
    return e.end_left_km_;
  } else if (neigh == e.rising_start_right() ||
             neigh == e.falling_start_right()) {
    return e.start_right_km_;
  } else {
    return e.end_right_km_;
  }
""", """  auto const is_one_of = [&neigh](element_ptr const a, element_ptr const b) {
    return neigh == a || neigh == b;
  };

  if (is_one_of(e.rising_start_left(), e.falling_start_left())) {
    return e.start_left_km_;
  }
  if (is_one_of(e.rising_end_left(), e.falling_end_left())) {
    return e.end_left_km_;
  }
  return is_one_of(e.rising_start_right(), e.falling_start_right())
             ? e.start_right_km_
             : e.end_right_km_;
"""), (EL, """  return !this->e_.apply([](auto&& e) { return e.rising_; });""", """  return !rising();"""),
    (EL, """  for (auto const& in : n->reverse_edges_) {
    if (in->next_node_ == n) {
      return in;
    }
  }
""", """  for (auto it = n->reverse_edges_.begin(); it != n->reverse_edges_.end();
       ++it) {
    if ((*it)->next_node_ != n) {
      continue;
    }
    return *it;
  }
"""), (EL, """    bool const is_branch = in->element_ == e.rising_branch_neighbour() ||
                           in->element_ == e.falling_branch_neighbour();
    bool const neigh_is_switch = in->element_->is(type::SIMPLE_SWITCH);

    if (is_branch) {
      continue;
    }

    if (neigh_is_switch || in->next_node_ == n) {
      return in;
    }
""", """    auto const from = in->element_;
    if (from != e.rising_branch_neighbour() &&
        from != e.falling_branch_neighbour() &&
        (in->next_node_ == n || from->is(type::SIMPLE_SWITCH))) {
      return in;
    }
""")])
SR = "src/infrastructure/station/station_route.cc"
ref("station-route-iterate", ["C06", "C08"], [(SR, """  for (; node_idx < to; ++node_idx) {
    result.node_ = nodes(node_idx);
    result.extra_spl_.reset();

    result.omitted_ = omit_idx < omitted_nodes_.size() &&
                      omitted_nodes_[omit_idx] == node_idx;

    if (result.omitted_) {
      ++omit_idx;
    } else {
      bool const extra_spl =
          spl_idx < extra_speed_limits_.size() &&
          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;

      if (extra_spl) {
        result.extra_spl_ =
            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
      }
    }

    co_yield result;
  }
""", """  while (node_idx < to) {
    result.node_ = nodes(node_idx);
    result.omitted_ = false;
    result.extra_spl_.reset();

    if (omit_idx < omitted_nodes_.size() &&
        node_idx == omitted_nodes_[omit_idx]) {
      result.omitted_ = true;
      ++omit_idx;
    }

    if (!result.omitted_ && spl_idx < extra_speed_limits_.size()) {
      auto const& spl = extra_speed_limits_[spl_idx];
      if (spl.node_->id_ == result.node_->id_) {
        result.extra_spl_ = speed_limit::optional_ptr(&spl);
        ++spl_idx;
      }
    }

    ++node_idx;
    co_yield result;
  }
"""), (SR, """  node::idx spl_idx = 0;
  for (node::idx n_idx = 0; n_idx < ff_to; ++n_idx) {
    auto const& spl = r.extra_speed_limits_[spl_idx];
    if (spl.node_ == r.nodes(n_idx)) {
      ++spl_idx;
    }

    if (spl_idx == r.extra_speed_limits_.size()) {
      break;
    }
  }
""", """  node::idx spl_idx = 0;
  node::idx n_idx = 0;
  while (n_idx != ff_to && spl_idx != r.extra_speed_limits_.size()) {
    if (r.nodes(n_idx) == r.extra_speed_limits_[spl_idx].node_) {
      ++spl_idx;
    }
    ++n_idx;
  }
""")])
RP = "src/runtime/runtime_physics.cc"
ref("physics-loops", ["C10"], [(RP, """  while (current_distance < distance) {
    current_time += DELTA_T;
    current_distance += current_speed * DELTA_T;
    coasting_results.emplace_back(current_time, current_distance,
                                  current_speed);
  }
""", """  for (; current_distance < distance;) {
    current_distance += current_speed * DELTA_T;
    current_time += DELTA_T;
    coasting_results.emplace_back(current_time, current_distance,
                                  current_speed);
  }
"""), (RP, """    current_time += DELTA_T;
    current_distance += current_speed * DELTA_T;
    current_speed += tp.deacceleration() * DELTA_T;

    deaccel_results""", """    auto const speed_before = current_speed;
    current_speed += tp.deacceleration() * DELTA_T;
    current_distance += speed_before * DELTA_T;
    current_time += DELTA_T;

    deaccel_results"""), (RP, """  while (current_speed < tp.max_speed() && current_speed < target_speed &&
         current_distance < max_distance) {
""", """  while (true) {
    if (!(current_distance < max_distance) || !(current_speed < target_speed) ||
        !(current_speed < tp.max_speed())) {
      break;
    }
""")])
IV = "src/runtime/interval.cc"
ref("interval-list", ["C10"], [(IV, """  for (node::idx idx = start.value(); idx > 0; --idx) {
    auto const node = train.first_station_route(infra)->nodes(idx);

    if (node->is(type::SPEED_LIMIT)) {""", """  auto const first_route = train.first_station_route(infra);
  for (node::idx idx = start.value(); idx != 0; idx -= 1) {
    auto const node = first_route->nodes(idx);

    if (node->type() == type::SPEED_LIMIT) {"""), (IV, """  while (last_ms_idx < list.size() &&
         list.at(last_ms_idx).limit_right_ == replaced_limit) {
    list.at(last_ms_idx).limit_right_ = new_limit;

    if (last_ms_idx < list.size() - 1) {
      list.at(last_ms_idx + 1).limit_left_ = new_limit;
    }
    ++last_ms_idx;
  }
""", """  do {
    list[last_ms_idx].limit_right_ = new_limit;
    ++last_ms_idx;

    if (last_ms_idx == list.size()) {
      break;
    }

    list[last_ms_idx].limit_left_ = new_limit;
  } while (list[last_ms_idx].limit_right_ == replaced_limit);
"""), (IV, """      if (!list.empty() && list.back().distance_ == current_distance) {
        list.back().append(new_interval);
      } else {
        list.push_back(new_interval);
      }
""", """      bool const same_place =
          !list.empty() && list.back().distance_ == current_distance;
      if (!same_place) {
        list.push_back(new_interval);
      } else {
        list.back().append(new_interval);
      }
"""), (IV, """  while (adjust_speed_limits(list, train.physics_))
    ;
""", """  bool changed = true;
  while (changed) {
    changed = adjust_speed_limits(list, train.physics_);
  }
""")])
RT = "src/runtime/runtime.cc"
ref("runtime-events", ["C10"], [(RT, """      auto const earliest_possible_dep =
          interval_end_arrival + interval.min_stop_time();
      auto const planned_dep = interval.departure();

      interval_end_departure = std::max(planned_dep, earliest_possible_dep);
""", """      interval_end_departure += interval.min_stop_time();
      if (interval_end_departure < interval.departure()) {
        interval_end_departure = interval.departure();
      }
"""), (RT, """    current.speed_ = p.accel_.speed_;
    current.speed_ = p.has_coast_phase() ? p.coast_.speed_ : current.speed_;
    current.speed_ = p.has_deaccel_phase() ? p.deaccel_.speed_ : current.speed_;
    current.time_""", """    if (p.has_deaccel_phase()) {
      current.speed_ = p.deaccel_.speed_;
    } else if (p.has_coast_phase()) {
      current.speed_ = p.coast_.speed_;
    } else {
      current.speed_ = p.accel_.speed_;
    }

    current.time_"""), (RT, """  for (auto const& event : interval.events_) {
    if (event.distance_ == interval.distance_) {
      event_reached(end_arrival, end_departure, event.node_->element_);
      continue;
    }

    length""", """  for (std::size_t i = 0; i < interval.events_.size(); ++i) {
    auto const& event = interval.events_[i];
    bool const at_end = event.distance_ == interval.distance_;
    if (at_end) {
      event_reached(end_arrival, end_departure, event.node_->element_);
      continue;
    }

    length""")])
IL = "src/infrastructure/interlocking/get_interlocking.cc"
ref("interlocking-routes", ["C11"], [(IL, """    if (route->can_end_an_interlocking(srg)) {
      ir.end_offset_ = route->path_->main_signals_.empty()
                           ? route->size()
                           : route->path_->main_signals_.front() + 1;
      routes.emplace_back(std::move(ir));
      return;
    }

    for (auto const& neighbour : srg.successors_[route->id_]) {
      get_paths_ref(neighbour, ir, get_paths_ref);
    }
""", """    auto const& signals = route->path_->main_signals_;
    if (!route->can_end_an_interlocking(srg)) {
      auto const& successors = srg.successors_[route->id_];
      for (std::size_t i = 0; i < successors.size(); ++i) {
        get_paths_ref(successors[i], ir, get_paths_ref);
      }
    } else {
      ir.end_offset_ = route->size();
      if (!signals.empty()) {
        ir.end_offset_ = static_cast<node::idx>(signals.front() + 1);
      }
      routes.emplace_back(ir);
    }
"""), (IL, """  for (auto [from, to] : utl::pairwise(sr->path_->main_signals_)) {
    interlocking_routes.emplace_back(
        interlocking_route{.id_ = interlocking_route::INVALID,
                           .start_offset_ = from,
                           .end_offset_ = static_cast<node::idx>(to + 1),
                           .station_routes_ = {sr->id_}});
  }
""", """  auto const& signals = sr->path_->main_signals_;
  for (std::size_t i = 1; i < signals.size(); ++i) {
    interlocking_route route{};
    route.id_ = interlocking_route::INVALID;
    route.start_offset_ = signals[i - 1];
    route.end_offset_ = static_cast<node::idx>(signals[i] + 1);
    route.station_routes_ = {sr->id_};
    interlocking_routes.emplace_back(route);
  }
"""), (IL, """    for (auto const station_route_id : interlocking_route.station_routes_) {
      sr_to_participating_irs[station_route_id].emplace_back(
          interlocking_route.id_);
    }
  }
""", """    auto const add = [&](station_route::id const sr_id) {
      sr_to_participating_irs[sr_id].push_back(interlocking_route.id_);
    };
    std::for_each(interlocking_route.station_routes_.begin(),
                  interlocking_route.station_routes_.end(), add);
  }
""")])
TR = "src/timetable/parsers/station_route_to_interlocking_route.cc"
ref("transform", ["C12"], [(TR, """  auto sr1 = interlocking_route.station_routes_.begin();
  auto sr2 = std::begin(stop_sequence.points_) +
             static_cast<std::ptrdiff_t>(sr_offset);

  std::size_t prefix_length = 0;

  for (;
       sr1 != std::end(interlocking_route.station_routes_) &&
       sr2 != std::end(stop_sequence.points_) && *sr1 == (*sr2).station_route_;
       ++sr1, ++sr2) {
    ++prefix_length;
  }
""", """  auto const& routes = interlocking_route.station_routes_;
  auto const& points = stop_sequence.points_;

  std::size_t prefix_length = 0;

  while (prefix_length < routes.size() &&
         sr_offset + prefix_length < points.size()) {
    if (points[sr_offset + prefix_length].station_route_ !=
        routes[prefix_length]) {
      break;
    }
    ++prefix_length;
  }
"""), (TR, """    if (prefix_length > current_longset_prefix) {
      longest_prefixes.clear();
      current_longset_prefix = prefix_length;
    }

    if (prefix_length >= current_longset_prefix) {
      longest_prefixes.emplace_back(candidate);
    }
""", """    if (prefix_length < current_longset_prefix) {
      continue;
    }

    if (prefix_length != current_longset_prefix) {
      current_longset_prefix = prefix_length;
      longest_prefixes = {};
    }

    longest_prefixes.push_back(candidate);
"""), (TR, """    current_cover.stop_sequence_offset_ +=
        ends_align ? prefix_length : prefix_length - 1;
    current_cover.node_idx_ = current_ir->end_offset_;
""", """    current_cover.node_idx_ = current_ir->end_offset_;
    current_cover.stop_sequence_offset_ += prefix_length;
    if (!ends_align) {
      --current_cover.stop_sequence_offset_;
    }
""")])
XE = "src/infrastructure/exclusion/exclusion_elements.cc"
XG = "src/infrastructure/exclusion/get_exclusion_graph.cc"
XX = "src/infrastructure/exclusion/get_exclusion.cc"
ref("exclusion-elements", ["C13"], [(XE, """  if (!ir.starts_on_section(infra)) {
    auto const starts_rising =
        static_cast<direction>(first_element->as<track_element>().rising_);

    utl::concat(exclusion_elements,
                get_exclusion_elements_from(first_section, first_element,
                                            starts_rising));
  } else {
    utl::concat(exclusion_elements, get_exclusion_elements(first_section));
  }

  // the middle sections are all traversed in their entirety
  for (auto i = 1U; i < used_sections.size() - 1; ++i) {
    auto const& section = infra->graph_.sections_[used_sections[i]];
    utl::concat(exclusion_elements, get_exclusion_elements(section));
  }
""", """  for (std::size_t i = 1; i + 1 < used_sections.size(); ++i) {
    auto const id = used_sections[i];
    for (auto const e : get_exclusion_elements(infra->graph_.sections_[id])) {
      exclusion_elements.push_back(e);
    }
  }

  if (ir.starts_on_section(infra)) {
    utl::concat(exclusion_elements, get_exclusion_elements(first_section));
  } else {
    auto const dir = first_element->as<track_element>().rising_
                         ? direction::Rising
                         : direction::Falling;

    utl::concat(exclusion_elements,
                get_exclusion_elements_from(first_section, first_element, dir));
  }
"""), (XG, """    interlocking_route::ids remove =
        infra->interlocking_.starting_at_[ir.last_node(infra)->id_];
    utl::concat(remove,
                infra->interlocking_.ending_at_[ir.first_node(infra)->id_]);
    utl::erase_duplicates(remove);
""", """    auto const first = ir.first_node(infra);
    auto const last = ir.last_node(infra);
    interlocking_route::ids remove =
        infra->interlocking_.ending_at_[first->id_];
    utl::concat(remove, infra->interlocking_.starting_at_[last->id_]);
    utl::erase_duplicates(remove);
"""), (XX, """    auto const batch_size = ir_count / thread_count;
    auto const from = static_cast<interlocking_route::id>(t_id * batch_size);
    auto const to =
        t_id == thread_count - 1 ? ir_count : ((t_id + 1) * batch_size);
""", """    auto const from =
        static_cast<interlocking_route::id>(t_id * ir_count / thread_count);
    auto const to = (t_id + 1) * ir_count / thread_count;
""")])
GC = "src/simulation/ordering/get_cycle.cc"
TE = "src/simulation/ordering/remove_transitive_edges.cc"
OG = "src/simulation/ordering/ordering_graph.cc"
ref("ordering", ["C09"], [(GC, """  cycle c = {start};
  auto current = prev[start];
  while (current != start) {
    c.emplace_back(current);
    current = prev[current];
  }

  utls::reverse(c);

  return c;
""", """  cycle c;
  for (auto current = prev[start]; current != start; current = prev[current]) {
    c.insert(c.begin(), current);
  }
  c.push_back(start);

  return c;
"""), (TE, """    utl::erase(og.nodes_[edge.first].out_, edge.second);
    utl::erase(og.nodes_[edge.second].in_, edge.first);
""", """    auto const [from, to] = edge;
    utl::erase(og.nodes_[to].in_, from);
    utl::erase(og.nodes_[from].out_, to);
"""), (OG, """  for (auto const& usage_order : orderings) {
    for (auto [from, to] : utl::pairwise(usage_order)) {
      // if the .from timestamps for the orderings are equal then we are just
      // betting that we don't introduce a cycle into the ordering graph
      //      utls::sassert(from.from_ != to.from_, "from and to are equal");

      nodes_[from.id_].out_.emplace_back(to.id_);
      nodes_[to.id_].in_.emplace_back(from.id_);
    }
  }
""", """  for (auto const& usage_order : orderings) {
    for (std::size_t i = 0; i + 1 < usage_order.size(); ++i) {
      auto const& from = usage_order[i];
      auto const& to = usage_order[i + 1];

      nodes_[to.id_].in_.push_back(from.id_);
      nodes_[from.id_].out_.push_back(to.id_);
    }
  }
""")])
