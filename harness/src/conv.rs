//! Observation functions: project swrs' public structures onto plain records, field by field (never
//! through swrs' own serialisation), and build swrs' structures from records.
use crate::schema::{date_to_ts, num, s};
use serde_json::{Map, Value as V};
use swrs::color::Color;
use swrs::parser::file::{ActivityOptions, FileItem, FileType, KeyboardSetting, Orientation, Theme};
use swrs::parser::library::{AdUnit, LibraryItem};
use swrs::parser::logic::component::Component;
use swrs::parser::logic::event::Event;
use swrs::parser::logic::Block;
use swrs::parser::project::{Project, ProjectColorPalette};
use swrs::parser::resource::ResourceItem;
use swrs::parser::view::models::image::ImageScaleType;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::layout::{Orientation as LOrientation, Size};
use swrs::parser::view::models::text::{ImeOption, InputType, TextType};
use swrs::parser::view::models::{AndroidView, ChoiceMode, ImageConfig, LayoutConfig, SpinnerMode, TextConfig};

pub fn color_to_i(c: &Color) -> i64 {
    // through the public component accessors only
    ((c.alpha() as u32) << 24 | (c.red() as u32) << 16 | (c.green() as u32) << 8 | c.blue() as u32) as i32 as i64
}

pub fn i_to_color(i: i64) -> Color {
    Color::from(i as i32 as u32)
}

fn obj(kv: Vec<(&str, V)>) -> V {
    let mut m = Map::new();
    for (k, v) in kv {
        m.insert(k.to_string(), v);
    }
    V::Object(m)
}

fn opt(x: &Option<String>) -> V {
    x.as_ref().map_or(V::Null, |y| s(y.clone()))
}

fn gs(v: &V, k: &str) -> String {
    v[k].as_str().unwrap_or_else(|| panic!("harness: member {k} missing in {v}")).to_string()
}

fn gi(v: &V, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: member {k} missing in {v}"))
}

fn gf(v: &V, k: &str) -> f32 {
    v[k].as_f64().unwrap() as f32
}

fn go(v: &V, k: &str) -> Option<String> {
    v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string())
}

fn gsa(v: &V, k: &str) -> Vec<String> {
    v[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

// ---- project
pub fn project_to_v(p: &Project) -> V {
    obj(vec![
        ("sc_id", s(p.id.to_string())),
        ("my_app_name", s(p.app_name.clone())),
        ("my_ws_name", s(p.workspace_name.clone())),
        ("my_sc_pkg_name", s(p.package_name.clone())),
        ("sc_ver_code", s(p.version_code.to_string())),
        ("sc_ver_name", s(p.version_name.clone())),
        ("my_sc_reg_dt", num(p.date_created as i64)),
        ("custom_icon", V::Bool(p.custom_icon)),
        ("color_primary", num(color_to_i(&p.color_palette.color_primary))),
        ("color_primary_dark", num(color_to_i(&p.color_palette.color_primary_dark))),
        ("color_accent", num(color_to_i(&p.color_palette.color_accent))),
        ("color_control_normal", num(color_to_i(&p.color_palette.color_control_normal))),
        ("color_control_highlight", num(color_to_i(&p.color_palette.color_control_highlight))),
        ("sketchware_ver", num(p.sketchware_version as i64)),
    ])
}

/// the record as `project_to_v` shows it: the date as seconds since the epoch
pub fn project_obs(v: &V) -> V {
    let mut v = v.clone();
    let d = date_to_ts(v["my_sc_reg_dt"].as_str().unwrap());
    v["my_sc_reg_dt"] = num(d);
    v
}

pub fn v_to_project(v: &V) -> Project {
    Project {
        id: gs(v, "sc_id").parse().unwrap(),
        app_name: gs(v, "my_app_name"),
        workspace_name: gs(v, "my_ws_name"),
        package_name: gs(v, "my_sc_pkg_name"),
        version_code: gs(v, "sc_ver_code").parse().unwrap(),
        version_name: gs(v, "sc_ver_name"),
        date_created: date_to_ts(&gs(v, "my_sc_reg_dt")) as u64,
        custom_icon: v["custom_icon"].as_bool().unwrap(),
        color_palette: ProjectColorPalette {
            color_primary: i_to_color(gi(v, "color_primary")),
            color_primary_dark: i_to_color(gi(v, "color_primary_dark")),
            color_accent: i_to_color(gi(v, "color_accent")),
            color_control_normal: i_to_color(gi(v, "color_control_normal")),
            color_control_highlight: i_to_color(gi(v, "color_control_highlight")),
        },
        sketchware_version: gi(v, "sketchware_ver") as u8,
    }
}

// ---- file
pub fn orientation_i(o: Orientation) -> i64 {
    match o {
        Orientation::Portrait => 0,
        Orientation::Landscape => 1,
        Orientation::Both => 2,
    }
}
pub fn theme_i(o: Theme) -> i64 {
    match o {
        Theme::None => -1,
        Theme::Default => 0,
        Theme::Actionbar => 1,
        Theme::Fullscreen => 2,
    }
}
pub fn keyboard_i(o: KeyboardSetting) -> i64 {
    match o {
        KeyboardSetting::Unspecified => 0,
        KeyboardSetting::Visible => 1,
        KeyboardSetting::Hidden => 2,
    }
}
pub fn i_orientation(i: i64) -> Orientation {
    match i {
        0 => Orientation::Portrait,
        1 => Orientation::Landscape,
        2 => Orientation::Both,
        _ => panic!("harness"),
    }
}
pub fn i_theme(i: i64) -> Theme {
    match i {
        -1 => Theme::None,
        0 => Theme::Default,
        1 => Theme::Actionbar,
        2 => Theme::Fullscreen,
        _ => panic!("harness"),
    }
}
pub fn i_keyboard(i: i64) -> KeyboardSetting {
    match i {
        0 => KeyboardSetting::Unspecified,
        1 => KeyboardSetting::Visible,
        2 => KeyboardSetting::Hidden,
        _ => panic!("harness"),
    }
}
pub fn options_i(o: &ActivityOptions) -> i64 {
    (o.toolbar_enabled as i64) | (o.fullscreen_enabled as i64) << 1 | (o.drawer_enabled as i64) << 2 | (o.fab_enabled as i64) << 3
}
pub fn i_options(i: i64) -> ActivityOptions {
    ActivityOptions { toolbar_enabled: i & 1 != 0, fullscreen_enabled: i & 2 != 0, drawer_enabled: i & 4 != 0, fab_enabled: i & 8 != 0 }
}

pub fn file_item_to_v(f: &FileItem) -> V {
    obj(vec![
        ("fileName", s(f.filename.clone())),
        (
            "fileType",
            num(match f.file_type {
                FileType::Activity => 0,
                FileType::CustomView => 1,
                FileType::Drawer => 2,
            }),
        ),
        ("keyboardSetting", num(keyboard_i(f.keyboard_setting))),
        ("options", num(options_i(&f.options))),
        ("orientation", num(orientation_i(f.orientation))),
        ("theme", num(theme_i(f.theme))),
    ])
}

pub fn v_to_file_item(v: &V) -> FileItem {
    FileItem {
        filename: gs(v, "fileName"),
        file_type: match gi(v, "fileType") {
            0 => FileType::Activity,
            1 => FileType::CustomView,
            _ => FileType::Drawer,
        },
        keyboard_setting: i_keyboard(gi(v, "keyboardSetting")),
        options: i_options(gi(v, "options")),
        orientation: i_orientation(gi(v, "orientation")),
        theme: i_theme(gi(v, "theme")),
    }
}

// ---- library
pub fn ad_units_v(a: &[AdUnit]) -> V {
    V::Array(a.iter().map(|x| obj(vec![("id", s(x.id.clone())), ("name", s(x.name.clone()))])).collect())
}
pub fn v_ad_units(v: &V) -> Vec<AdUnit> {
    v.as_array().unwrap().iter().map(|x| AdUnit { id: gs(x, "id"), name: gs(x, "name") }).collect()
}
pub fn strs_v(a: &[String]) -> V {
    V::Array(a.iter().map(|x| s(x.clone())).collect())
}

pub fn library_item_to_v(l: &LibraryItem) -> V {
    obj(vec![
        ("adUnits", ad_units_v(&l.ad_units)),
        ("data", s(l.data.clone())),
        ("libType", num(l.lib_type as i64)),
        ("reserved1", s(l.reserved1.clone())),
        ("reserved2", s(l.reserved2.clone())),
        ("reserved3", s(l.reserved3.clone())),
        ("testDevices", strs_v(&l.test_devices)),
        ("useYn", s(l.use_yn.clone())),
    ])
}

pub fn v_to_library_item(v: &V) -> LibraryItem {
    LibraryItem {
        ad_units: v_ad_units(&v["adUnits"]),
        data: gs(v, "data"),
        lib_type: gi(v, "libType") as u8,
        reserved1: gs(v, "reserved1"),
        reserved2: gs(v, "reserved2"),
        reserved3: gs(v, "reserved3"),
        test_devices: gsa(v, "testDevices"),
        use_yn: gs(v, "useYn"),
    }
}

// ---- resource
pub fn resource_item_to_v(r: &ResourceItem) -> V {
    obj(vec![("resFullName", s(r.full_name.clone())), ("resName", s(r.name.clone())), ("resType", num(r.r#type as i64))])
}
pub fn v_to_resource_item(v: &V) -> ResourceItem {
    ResourceItem { full_name: gs(v, "resFullName"), name: gs(v, "resName"), r#type: gi(v, "resType") as u8 }
}

// ---- logic
pub fn event_to_v(e: &Event) -> V {
    obj(vec![
        ("eventName", s(e.event_name.clone())),
        ("eventType", num(e.event_type as i64)),
        ("targetId", s(e.target_id.clone())),
        ("targetType", num(e.target_type as i64)),
    ])
}
pub fn v_to_event(v: &V) -> Event {
    Event { event_name: gs(v, "eventName"), event_type: gi(v, "eventType") as u8, target_id: gs(v, "targetId"), target_type: gi(v, "targetType") as u8 }
}
pub fn component_to_v(c: &Component) -> V {
    obj(vec![
        ("componentId", s(c.id.clone())),
        ("param1", s(c.param1.clone())),
        ("param2", s(c.param2.clone())),
        ("param3", s(c.param3.clone())),
        ("type", num(c.r#type as i64)),
    ])
}
pub fn v_to_component(v: &V) -> Component {
    Component { id: gs(v, "componentId"), param1: gs(v, "param1"), param2: gs(v, "param2"), param3: gs(v, "param3"), r#type: gi(v, "type") as u8 }
}
pub fn block_to_v(b: &Block) -> V {
    obj(vec![
        ("color", num(color_to_i(&b.color))),
        ("id", s(b.id.clone())),
        ("nextBlock", num(b.next_block as i64)),
        ("opCode", s(b.op_code.clone())),
        ("parameters", strs_v(&b.parameters)),
        ("spec", s(b.spec.clone())),
        ("subStack1", num(b.sub_stack1 as i64)),
        ("subStack2", num(b.sub_stack2 as i64)),
        ("type", s(b.r#type.clone())),
        ("typeName", s(b.type_name.clone())),
    ])
}
pub fn v_to_block(v: &V) -> Block {
    Block {
        color: i_to_color(gi(v, "color")),
        id: gs(v, "id"),
        next_block: gi(v, "nextBlock") as i32,
        op_code: gs(v, "opCode"),
        parameters: gsa(v, "parameters"),
        spec: gs(v, "spec"),
        sub_stack1: gi(v, "subStack1") as i32,
        sub_stack2: gi(v, "subStack2") as i32,
        r#type: gs(v, "type"),
        type_name: gs(v, "typeName"),
    }
}

// ---- view
pub fn size_i(x: &Size) -> i64 {
    match x {
        Size::MatchParent => -2,
        Size::WrapContent => -1,
        Size::Fixed(n) => *n as i64,
    }
}
pub fn i_size(i: i64) -> Size {
    match i {
        -2 => Size::MatchParent,
        -1 => Size::WrapContent,
        n => Size::Fixed(n as i32),
    }
}
pub fn lor_i(o: LOrientation) -> i64 {
    match o {
        LOrientation::Vertical => 1,
        LOrientation::Unspecified => 0,
        LOrientation::Horizontal => -1,
    }
}
pub fn i_lor(i: i64) -> LOrientation {
    match i {
        1 => LOrientation::Vertical,
        0 => LOrientation::Unspecified,
        -1 => LOrientation::Horizontal,
        _ => panic!("harness"),
    }
}
pub fn scale_s(x: ImageScaleType) -> &'static str {
    match x {
        ImageScaleType::Center => "CENTER",
        ImageScaleType::FitXy => "FIT_XY",
        ImageScaleType::FitStart => "FIT_START",
        ImageScaleType::FitCenter => "FIT_CENTER",
        ImageScaleType::FitEnd => "FIT_END",
        ImageScaleType::CenterCrop => "CENTER_CROP",
        ImageScaleType::CenterInside => "CENTER_INSIDE",
    }
}
pub fn s_scale(x: &str) -> ImageScaleType {
    match x {
        "CENTER" => ImageScaleType::Center,
        "FIT_XY" => ImageScaleType::FitXy,
        "FIT_START" => ImageScaleType::FitStart,
        "FIT_CENTER" => ImageScaleType::FitCenter,
        "FIT_END" => ImageScaleType::FitEnd,
        "CENTER_CROP" => ImageScaleType::CenterCrop,
        "CENTER_INSIDE" => ImageScaleType::CenterInside,
        _ => panic!("harness"),
    }
}
pub fn ime_i(x: ImeOption) -> i64 {
    match x {
        ImeOption::Normal => 0,
        ImeOption::None => 1,
        ImeOption::Go => 2,
        ImeOption::Search => 3,
        ImeOption::Send => 4,
        ImeOption::Next => 5,
        ImeOption::Done => 6,
    }
}
pub fn i_ime(x: i64) -> ImeOption {
    match x {
        0 => ImeOption::Normal,
        1 => ImeOption::None,
        2 => ImeOption::Go,
        3 => ImeOption::Search,
        4 => ImeOption::Send,
        5 => ImeOption::Next,
        6 => ImeOption::Done,
        _ => panic!("harness"),
    }
}
pub fn input_i(x: InputType) -> i64 {
    match x {
        InputType::NumberDecimal => 8194,
        InputType::NumberSigned => 4098,
        InputType::NumberSignedDecimal => 12290,
        InputType::Password => 129,
        InputType::Phone => 3,
        InputType::Text => 1,
    }
}
pub fn i_input(x: i64) -> InputType {
    match x {
        8194 => InputType::NumberDecimal,
        4098 => InputType::NumberSigned,
        12290 => InputType::NumberSignedDecimal,
        129 => InputType::Password,
        3 => InputType::Phone,
        1 => InputType::Text,
        _ => panic!("harness"),
    }
}
pub fn ttype_i(x: TextType) -> i64 {
    match x {
        TextType::Normal => 0,
        TextType::Bold => 1,
        TextType::Italic => 2,
        TextType::BoldItalic => 3,
    }
}
pub fn i_ttype(x: i64) -> TextType {
    match x {
        0 => TextType::Normal,
        1 => TextType::Bold,
        2 => TextType::Italic,
        3 => TextType::BoldItalic,
        _ => panic!("harness"),
    }
}
pub fn choice_i(x: ChoiceMode) -> i64 {
    match x {
        ChoiceMode::None => 0,
        ChoiceMode::Single => 1,
        ChoiceMode::Multi => 2,
    }
}
pub fn i_choice(x: i64) -> ChoiceMode {
    match x {
        0 => ChoiceMode::None,
        1 => ChoiceMode::Single,
        2 => ChoiceMode::Multi,
        _ => panic!("harness"),
    }
}
pub fn spinner_i(x: SpinnerMode) -> i64 {
    match x {
        SpinnerMode::Dialog => 0,
        SpinnerMode::Dropdown => 1,
    }
}
pub fn i_spinner(x: i64) -> SpinnerMode {
    match x {
        0 => SpinnerMode::Dialog,
        1 => SpinnerMode::Dropdown,
        _ => panic!("harness"),
    }
}

pub fn view_to_v(a: &AndroidView) -> V {
    let l = &a.layout;
    let x = &a.text;
    obj(vec![
        ("adSize", s(a.ad_size.clone())),
        ("adUnitId", s(a.ad_unit_id.clone())),
        ("alpha", V::from(a.alpha as f64)),
        ("checked", num(a.checked as i64)),
        ("choiceMode", num(choice_i(a.choice_mode))),
        ("clickable", num(a.clickable as i64)),
        ("customView", s(a.custom_view.clone())),
        ("dividerHeight", num(a.divider_height as i64)),
        ("enabled", num(a.enabled as i64)),
        ("firstDayOfWeek", num(a.first_day_of_week as i64)),
        ("id", s(a.id.clone())),
        (
            "image",
            obj(vec![("resName", opt(&a.image.res_name)), ("rotate", num(a.image.rotate as i64)), ("scaleType", s(scale_s(a.image.scale_type)))]),
        ),
        ("indeterminate", s(if a.indeterminate { "true" } else { "false" })),
        ("index", num(a.index as i64)),
        (
            "layout",
            obj(vec![
                ("backgroundColor", num(color_to_i(&l.background_color))),
                ("gravity", num(l.gravity.0 as i64)),
                ("height", num(size_i(&l.height))),
                ("layoutGravity", num(l.layout_gravity.0 as i64)),
                ("marginBottom", num(l.margin_bottom as i64)),
                ("marginLeft", num(l.margin_left as i64)),
                ("marginRight", num(l.margin_right as i64)),
                ("marginTop", num(l.margin_top as i64)),
                ("orientation", num(lor_i(l.orientation))),
                ("paddingBottom", num(l.padding_bottom as i64)),
                ("paddingLeft", num(l.padding_left as i64)),
                ("paddingRight", num(l.padding_right as i64)),
                ("paddingTop", num(l.padding_top as i64)),
                ("weight", num(l.weight as i64)),
                ("weightSum", num(l.weight_sum as i64)),
                ("width", num(size_i(&l.width))),
            ]),
        ),
        ("max", num(a.max as i64)),
        ("parent", opt(&a.parent)),
        ("parentType", num(a.parent_type as i64)),
        ("preId", opt(&a.pre_id)),
        ("preIndex", num(a.pre_index as i64)),
        ("preParent", opt(&a.pre_parent)),
        ("preParentType", num(a.pre_parent_type as i64)),
        ("progress", num(a.progress as i64)),
        ("progressStyle", s(a.progress_style.clone())),
        ("scaleX", V::from(a.scale_x as f64)),
        ("scaleY", V::from(a.scale_y as f64)),
        ("spinnerMode", num(spinner_i(a.spinner_mode))),
        (
            "text",
            obj(vec![
                ("hint", s(x.hint.clone())),
                ("hintColor", num(color_to_i(&x.hint_color))),
                ("imeOption", num(ime_i(x.ime_option))),
                ("inputType", num(input_i(x.input_type))),
                ("line", num(x.line as i64)),
                ("singleLine", num(x.single_line as i64)),
                ("text", s(x.text.clone())),
                ("textColor", num(color_to_i(&x.text_color))),
                ("textFont", s(x.text_font.clone())),
                ("textSize", num(x.text_size as i64)),
                ("textType", num(ttype_i(x.text_type))),
            ]),
        ),
        ("translationX", V::from(a.translation_x as f64)),
        ("translationY", V::from(a.translation_y as f64)),
        ("type", num(a.r#type as i64)),
    ])
}

pub fn v_to_view(v: &V) -> AndroidView {
    let i = &v["image"];
    let l = &v["layout"];
    let x = &v["text"];
    AndroidView {
        ad_size: gs(v, "adSize"),
        ad_unit_id: gs(v, "adUnitId"),
        alpha: gf(v, "alpha"),
        checked: gi(v, "checked") != 0,
        choice_mode: i_choice(gi(v, "choiceMode")),
        clickable: gi(v, "clickable") != 0,
        custom_view: gs(v, "customView"),
        divider_height: gi(v, "dividerHeight") as u32,
        enabled: gi(v, "enabled") != 0,
        first_day_of_week: gi(v, "firstDayOfWeek") as u8,
        id: gs(v, "id"),
        image: ImageConfig { res_name: go(i, "resName"), rotate: gi(i, "rotate") as i16, scale_type: s_scale(&gs(i, "scaleType")) },
        indeterminate: gs(v, "indeterminate") == "true",
        index: gi(v, "index") as u32,
        layout: LayoutConfig {
            background_color: i_to_color(gi(l, "backgroundColor")),
            gravity: Gravity(gi(l, "gravity") as u8),
            height: i_size(gi(l, "height")),
            layout_gravity: Gravity(gi(l, "layoutGravity") as u8),
            margin_bottom: gi(l, "marginBottom") as u32,
            margin_left: gi(l, "marginLeft") as u32,
            margin_right: gi(l, "marginRight") as u32,
            margin_top: gi(l, "marginTop") as u32,
            orientation: i_lor(gi(l, "orientation")),
            padding_bottom: gi(l, "paddingBottom") as u32,
            padding_left: gi(l, "paddingLeft") as u32,
            padding_right: gi(l, "paddingRight") as u32,
            padding_top: gi(l, "paddingTop") as u32,
            weight: gi(l, "weight") as u32,
            weight_sum: gi(l, "weightSum") as u32,
            width: i_size(gi(l, "width")),
        },
        max: gi(v, "max") as u32,
        parent: go(v, "parent"),
        parent_type: gi(v, "parentType") as i8,
        pre_id: go(v, "preId"),
        pre_index: gi(v, "preIndex") as i32,
        pre_parent: go(v, "preParent"),
        pre_parent_type: gi(v, "preParentType") as i8,
        progress: gi(v, "progress") as u32,
        progress_style: gs(v, "progressStyle"),
        scale_x: gf(v, "scaleX"),
        scale_y: gf(v, "scaleY"),
        spinner_mode: i_spinner(gi(v, "spinnerMode")),
        text: TextConfig {
            hint: gs(x, "hint"),
            hint_color: i_to_color(gi(x, "hintColor")),
            ime_option: i_ime(gi(x, "imeOption")),
            input_type: i_input(gi(x, "inputType")),
            line: gi(x, "line") as u32,
            single_line: gi(x, "singleLine") != 0,
            text: gs(x, "text"),
            text_color: i_to_color(gi(x, "textColor")),
            text_font: gs(x, "textFont"),
            text_size: gi(x, "textSize") as u32,
            text_type: i_ttype(gi(x, "textType")),
        },
        translation_x: gf(v, "translationX"),
        translation_y: gf(v, "translationY"),
        r#type: gi(v, "type") as u8,
    }
}
