use crate::obs;
use osmpbf::*;

// ---- coordinates (C01), identity of the elements of a group
pub fn w_node_coords(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.nodes() {
            obs("id", n.id());
            obs("nano_lat", n.nano_lat());
            obs("nano_lon", n.nano_lon());
            obs("lat", n.lat());
            obs("lon", n.lon());
            obs("decimicro_lat", n.decimicro_lat());
            obs("decimicro_lon", n.decimicro_lon());
        }
    }
}

pub fn w_dense_coords(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.dense_nodes() {
            obs("id", n.id());
            obs("id_field", n.id);
            obs("nano_lat", n.nano_lat());
            obs("nano_lon", n.nano_lon());
            obs("lat", n.lat());
            obs("lon", n.lon());
            obs("decimicro_lat", n.decimicro_lat());
            obs("decimicro_lon", n.decimicro_lon());
        }
    }
}

pub fn w_el_dense_coords(b: &PrimitiveBlock) {
    for e in b.elements() {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            obs("id_field", n.id);
            obs("nano_lat", n.nano_lat());
            obs("nano_lon", n.nano_lon());
            obs("lat", n.lat());
            obs("lon", n.lon());
            obs("decimicro_lat", n.decimicro_lat());
            obs("decimicro_lon", n.decimicro_lon());
        }
    }
}

pub fn w_cb_dense_coords(b: &PrimitiveBlock) {
    b.for_each_element(|e| {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            obs("id_field", n.id);
            obs("nano_lat", n.nano_lat());
            obs("nano_lon", n.nano_lon());
            obs("lat", n.lat());
            obs("lon", n.lon());
            obs("decimicro_lat", n.decimicro_lat());
            obs("decimicro_lon", n.decimicro_lon());
        }
    });
}

pub fn w_way_locations(b: &PrimitiveBlock) {
    for g in b.groups() {
        for w in g.ways() {
            obs("way", w.id());
            for n in w.node_locations() {
                obs("nano_lat", n.nano_lat());
                obs("nano_lon", n.nano_lon());
                obs("lat", n.lat());
                obs("lon", n.lon());
                obs("decimicro_lat", n.decimicro_lat());
                obs("decimicro_lon", n.decimicro_lon());
            }
        }
    }
}

pub fn w_way_refs(b: &PrimitiveBlock) {
    for g in b.groups() {
        for w in g.ways() {
            obs("way", w.id());
            obs("raw_refs", w.raw_refs());
            for r in w.refs() {
                obs("ref", r);
            }
        }
    }
}

// ---- metadata (C03)
fn info(i: &Info) {
    obs("version", i.version());
    obs("milli_timestamp", i.milli_timestamp());
    obs("changeset", i.changeset());
    obs("uid", i.uid());
    obs("user", i.user());
    obs("visible", i.visible());
    obs("deleted", i.deleted());
}

pub fn w_node_info(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.nodes() {
            obs("id", n.id());
            info(&n.info());
        }
    }
}

pub fn w_way_info(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.ways() {
            obs("id", n.id());
            info(&n.info());
        }
    }
}

pub fn w_rel_info(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.relations() {
            obs("id", n.id());
            info(&n.info());
        }
    }
}

pub fn w_dense_info(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.dense_nodes() {
            obs("id", n.id());
            obs("has_info", n.info().is_some());
            if let Some(i) = n.info() {
                obs("version", i.version());
                obs("milli_timestamp", i.milli_timestamp());
                obs("changeset", i.changeset());
                obs("uid", i.uid());
                obs("user", i.user());
                obs("visible", i.visible());
                obs("deleted", i.deleted());
            }
        }
    }
}

pub fn w_el_dense_info(b: &PrimitiveBlock) {
    for e in b.elements() {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            obs("has_info", n.info().is_some());
            if let Some(i) = n.info() {
                obs("version", i.version());
                obs("milli_timestamp", i.milli_timestamp());
                obs("changeset", i.changeset());
                obs("uid", i.uid());
                obs("user", i.user());
                obs("visible", i.visible());
                obs("deleted", i.deleted());
            }
        }
    }
}

pub fn w_cb_dense_info(b: &PrimitiveBlock) {
    b.for_each_element(|e| {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            obs("has_info", n.info().is_some());
            if let Some(i) = n.info() {
                obs("version", i.version());
                obs("milli_timestamp", i.milli_timestamp());
                obs("changeset", i.changeset());
                obs("uid", i.uid());
                obs("user", i.user());
                obs("visible", i.visible());
                obs("deleted", i.deleted());
            }
        }
    });
}

// ---- tags (C05, C06, C07)
pub fn w_node_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.nodes() {
            obs("id", n.id());
            for (k, v) in n.tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_node_raw_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.nodes() {
            obs("id", n.id());
            obs("stringtable", n.raw_stringtable());
            for (k, v) in n.raw_tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_way_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.ways() {
            obs("id", n.id());
            for (k, v) in n.tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_way_raw_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.ways() {
            obs("id", n.id());
            obs("stringtable", n.raw_stringtable());
            for (k, v) in n.raw_tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_rel_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.relations() {
            obs("id", n.id());
            for (k, v) in n.tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_rel_raw_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.relations() {
            obs("id", n.id());
            obs("stringtable", n.raw_stringtable());
            for (k, v) in n.raw_tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_dense_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.dense_nodes() {
            obs("id", n.id());
            for (k, v) in n.tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_el_dense_tags(b: &PrimitiveBlock) {
    for e in b.elements() {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            for (k, v) in n.tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_cb_dense_tags(b: &PrimitiveBlock) {
    b.for_each_element(|e| {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            for (k, v) in n.tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    });
}

pub fn w_dense_raw_tags(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.dense_nodes() {
            obs("id", n.id());
            for (k, v) in n.raw_tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_el_dense_raw_tags(b: &PrimitiveBlock) {
    for e in b.elements() {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            for (k, v) in n.raw_tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    }
}

pub fn w_cb_dense_raw_tags(b: &PrimitiveBlock) {
    b.for_each_element(|e| {
        if let Element::DenseNode(n) = e {
            obs("id", n.id());
            for (k, v) in n.raw_tags() {
                obs("key", k);
                obs("value", v);
            }
        }
    });
}

pub fn w_rel_members(b: &PrimitiveBlock) {
    for g in b.groups() {
        for r in g.relations() {
            obs("rel", r.id());
            for m in r.members() {
                obs("role_sid", m.role_sid);
                obs("member_id", m.member_id);
                obs("member_type", match m.member_type {
                    RelMemberType::Node => 0,
                    RelMemberType::Way => 1,
                    RelMemberType::Relation => 2,
                });
                obs("role", m.role());
            }
        }
    }
}

// ---- walking (C08)
fn element(e: &Element) {
    match e {
        Element::Node(n) => {
            obs("node", n.id());
            obs("node.nano_lat", n.nano_lat());
        }
        Element::DenseNode(n) => {
            obs("dense", n.id());
            obs("dense.nano_lat", n.nano_lat());
        }
        Element::Way(w) => obs("way", w.id()),
        Element::Relation(r) => obs("rel", r.id()),
    }
}

pub fn w_walk_elements(b: &PrimitiveBlock) {
    for e in b.elements() {
        element(&e);
    }
}

pub fn w_walk_callback(b: &PrimitiveBlock) {
    b.for_each_element(|e| element(&e));
}

pub fn w_walk_groups(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.nodes() {
            element(&Element::Node(n));
        }
        for n in g.dense_nodes() {
            element(&Element::DenseNode(n));
        }
        for n in g.ways() {
            element(&Element::Way(n));
        }
        for n in g.relations() {
            element(&Element::Relation(n));
        }
    }
}

// ---- header (C04, C01)
pub fn w_header(h: &HeaderBlock) {
    obs("required_features", h.required_features());
    obs("optional_features", h.optional_features());
    obs("writing_program", h.writing_program());
    obs("source", h.source());
    obs("osmosis_replication_timestamp", h.osmosis_replication_timestamp());
    obs("osmosis_replication_sequence_number", h.osmosis_replication_sequence_number());
    obs("osmosis_replication_base_url", h.osmosis_replication_base_url());
}

pub fn w_header_bbox(h: &HeaderBlock) {
    let bb = h.bbox();
    obs("is_some", bb.is_some());
    if let Some(b) = bb {
        obs("left", b.left);
        obs("right", b.right);
        obs("top", b.top);
        obs("bottom", b.bottom);
    }
}

pub fn w_block_stringtable(b: &PrimitiveBlock) {
    obs("stringtable", b.raw_stringtable());
}

// ---- string lookups (C05)
fn lookup<'a>(r: Result<&'a str>) {
    match r {
        Ok(s) => obs("ok", s),
        Err(e) => match e.into_kind() {
            ErrorKind::StringtableIndexOutOfBounds { index } => obs("oob", index),
            ErrorKind::StringtableUtf8 { err, index } => {
                obs("utf8", index);
                obs("utf8err", err);
            }
            _ => obs("other", 0),
        },
    }
}

pub fn w_lookup_role(b: &PrimitiveBlock) {
    for g in b.groups() {
        for r in g.relations() {
            obs("id", r.id());
            for m in r.members() {
                obs("index", m.role_sid);
                lookup(m.role());
            }
        }
    }
}

pub fn w_lookup_node_user(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.nodes() {
            obs("id", n.id());
            if let Some(u) = n.info().user() {
                lookup(u);
            }
        }
    }
}

pub fn w_lookup_way_user(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.ways() {
            obs("id", n.id());
            if let Some(u) = n.info().user() {
                lookup(u);
            }
        }
    }
}

pub fn w_lookup_rel_user(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.relations() {
            obs("id", n.id());
            if let Some(u) = n.info().user() {
                lookup(u);
            }
        }
    }
}

pub fn w_lookup_dense_user(b: &PrimitiveBlock) {
    for g in b.groups() {
        for n in g.dense_nodes() {
            obs("id", n.id());
            if let Some(i) = n.info() {
                lookup(i.user());
            }
        }
    }
}
