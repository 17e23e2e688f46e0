//! Annotations, actions, forms, files, renditions, transitions.
use crate::model::{x, X};
use crate::dom::{self, f32s, refs, texts};
use crate::tab::*;
use crate::{stream_table, table, value_table};
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn bpos(i: usize) -> [f32; 3] {
    let n = f32s().len();
    std::array::from_fn(|p| if p == i / n { f32s()[i % n] } else { 0.25 })
}
fn border_x(b: [f32; 3], dash: Option<Vec<f32>>) -> X {
    let mut v: Vec<X> = b.iter().map(|f| X::F(*f)).collect();
    v.extend(dash.map(|d| f32s_x(&d)));
    X::Arr(v)
}

pub fn interactive() -> Vec<Table> {
    let mut o = vec![];
    table!(o; Dict "Annotation" "<</Type /Annot>>" Annotation {
        en subtype "Subtype" {
            AnnotationType::Text => "/Text", AnnotationType::Link => "/Link",
            AnnotationType::Line => "/Line", AnnotationType::Square => "/Square",
            AnnotationType::Circle => "/Circle", AnnotationType::Highlight => "/Highlight",
            AnnotationType::Underline => "/Underline", AnnotationType::Squiggly => "/Squiggly",
            AnnotationType::StrikeOut => "/StrikeOut",
            AnnotationType::FileAttachment => "/FileAttachment",
            AnnotationType::Widget => "/Widget", AnnotationType::Screen => "/Screen",
        };
        rect rect "Rect";
        ltext contents "Contents";
        refr page "P";
        ltext name "NM";
        date modified "M";
        flags flags "F" AnnotationFlags;
        sub appearance "AP" "<<>>";
        name appearance_state "AS";
        call "border(0,1,2.5,None)" {"Border": "[0 1.0 2.5]"} |w| w.border(0.0, 1.0, 2.5, None);
        also "border(3,0,0.5,[])" {"Border": "[3.0 0.0 0.5 []]"} |w| w.border(3.0, 0.0, 0.5, Some(&[]));
        also "border(-1,1e-7,1,[1])" {"Border": X::Arr(vec![X::F(-1.0), X::F(1e-7), X::F(1.0), f32s_x(&[1.0])])}
            |w| w.border(-1.0, 1e-7, 1.0, Some(&[1.0]));
        also "border(1,2,3,[4,5.5,0])" {"Border": "[1.0 2.0 3.0 [4.0 5.5 0.0]]"}
            |w| w.border(1.0, 2.0, 3.0, Some(&[4.0, 5.5, 0.0]));
        wide "border" "Border" 3 * f32s().len(), |i| border_x(bpos(i), None), |w| { let [a, b, c] = bpos(i); w.border(a, b, c, None) };
        wide "border dashed" "Border" dom::wide_lists(F32S, f32s()), |i| border_x([0.0, 1.0, 1.0], Some(dom::wide_list(F32S, f32s(), i))), |w| w.border(0.0, 1.0, 1.0, Some(&dom::wide_list(F32S, f32s(), i)));
        sub border_style "BS" "<</Type /Border>>";
        unit color_transparent "C" "[]";
        nums color_gray "C" [a] (a);
        nums color_rgb "C" [r, g, b] (r, g, b);
        nums color_cmyk "C" [c, m, y, k] (c, m, y, k);
        i32 struct_parent "StructParent";
        sub action "A" "<</Type /Action>>";
        sub additional_actions "AA" "<<>>";
        en highlight "H" {
            HighlightEffect::None => "/N", HighlightEffect::Invert => "/I",
            HighlightEffect::Outline => "/O", HighlightEffect::Push => "/P",
        };
        ltext author "T";
        ltext subject "Subj";
        f32s quad_points "QuadPoints";
        nums line_to "L" [a, b, c, d] (a, b, c, d);
        sub file_spec "FS" "<</Type /Filespec>>";
        en icon "Name" {
            AnnotationIcon::Comment => "/Comment", AnnotationIcon::Key => "/Key",
            AnnotationIcon::Note => "/Note", AnnotationIcon::Help => "/Help",
            AnnotationIcon::NewParagraph => "/NewParagraph",
            AnnotationIcon::Paragraph => "/Paragraph", AnnotationIcon::Insert => "/Insert",
            AnnotationIcon::Graph => "/Graph", AnnotationIcon::PushPin => "/PushPin",
            AnnotationIcon::Paperclip => "/Paperclip", AnnotationIcon::Tag => "/Tag",
            AnnotationIcon::Custom(Name(b"My Icon")) => "/My#20Icon",
            AnnotationIcon::Custom(Name(b"")) => "/",
        };
        sub appearance_characteristics "MK" "<<>>";
        refr parent "Parent";
        subs associated_files "AF" "<</Type /Filespec>>";
    });
    table!(o; Dict "AppearanceCharacteristics" "<<>>" AppearanceCharacteristics {
        i32 rotate "R";
        unit border_color_transparent "BC" "[]";
        nums border_color_gray "BC" [a] (a);
        nums border_color_rgb "BC" [r, g, b] (r, g, b);
        nums border_color_cymk "BC" [c, m, y, k] (c, y, m, k);
        unit background_color_transparent "BG" "[]";
        nums background_color_gray "BG" [a] (a);
        nums background_color_rgb "BG" [r, g, b] (r, g, b);
        nums background_color_cymk "BG" [c, m, y, k] (c, y, m, k);
        ltext normal_caption "CA";
        ltext rollover_caption "RC";
        ltext alternate_caption "AC";
        refr normal_icon "I";
        refr rollover_icon "RI";
        refr alternate_icon "IX";
        sub icon_fit "IF" "<<>>";
        en text_position "TP" {
            TextPosition::CaptionOnly => 0, TextPosition::IconOnly => 1, TextPosition::Below => 2,
            TextPosition::Above => 3, TextPosition::Right => 4, TextPosition::Left => 5,
            TextPosition::Overlaid => 6,
        };
    });
    table!(o; Dict "IconFit" "<<>>" IconFit {
        en scale "SW" { IconScale::Always => "/A", IconScale::Bigger => "/B",
            IconScale::Smaller => "/S", IconScale::Never => "/N" };
        en scale_type "S" { IconScaleType::Anamorphic => "/A", IconScaleType::Proportional => "/P" };
        nums leftover_space "A" [a, b] (a, b);
        bool fit_bounds "FB";
    });
    table!(o; Dict "Appearance" "<<>>" Appearance {
        do |t| {
            type F = for<'a, 'b> fn(&'a mut Appearance<'b>) -> AppearanceEntry<'a>;
            for (k, f) in [
                ("N", (|a| a.normal()) as F),
                ("R", (|a| a.rollover()) as F),
                ("D", (|a| a.alternate()) as F),
            ] {
                t.next();
                for r in REFS {
                    t.push(format!("{k}.stream({r})"), vec![(k, X::Ref(*r as i64))], Box::new(move |w| {
                        f(w).stream(Ref::new(*r));
                    }));
                }
                for n in 0..4usize {
                    let d = (0..n).map(|i| (NAMES[i].to_vec(), X::Ref(i as i64 + 1))).collect();
                    t.push(format!("{k}.streams {n}"), vec![(k, X::Dict(d))], Box::new(move |w| {
                        let mut d = f(w).streams();
                        for i in 0..n {
                            d.pair(Name(NAMES[i]), Ref::new(i as i32 + 1));
                        }
                    }));
                }
            }
        };
    });
    table!(o; Dict "BorderStyle" "<</Type /Border>>" BorderStyle {
        f32 width "W";
        en style "S" { BorderType::Solid => "/S", BorderType::Dashed => "/D",
            BorderType::Beveled => "/B", BorderType::Inset => "/I", BorderType::Underline => "/U" };
        f32s dashes "D";
    });
    table!(o; Dict "Action" "<</Type /Action>>" Action {
        en action_type "S" {
            ActionType::GoTo => "/GoTo", ActionType::RemoteGoTo => "/GoToR",
            ActionType::Launch => "/Launch", ActionType::Uri => "/URI",
            ActionType::SubmitForm => "/SubmitForm", ActionType::ResetForm => "/ResetForm",
            ActionType::ImportData => "/ImportData", ActionType::JavaScript => "/JavaScript",
            ActionType::Rendition => "/Rendition",
        };
        call "destination" {"D": "[6 0 R /Fit]"} |w| w.destination().page(Ref::new(6)).fit();
        name destination_named "D";
        sub file_spec "F" "<</Type /Filespec>>";
        bool new_window "NewWindow";
        str uri "URI";
        bool is_map "IsMap";
        text js_string "JS";
        refr js_stream "JS";
        call "fields" {"Fields": "[5 0 R (a)]"} |w| w.fields().id(Ref::new(5)).name(TextStr("a"));
        also "fields none" {"Fields": "[]"} |w| w.fields();
        flags form_flags "Flags" FormActionFlags;
        en operation "OP" {
            RenditionOperation::Play => 0, RenditionOperation::Stop => 1,
            RenditionOperation::Pause => 2, RenditionOperation::Resume => 3,
            RenditionOperation::PlayOrResume => 4,
        };
        refr annotation "AN";
        sub rendition "R" "<</Type /Rendition>>";
    });
    table!(o; Array "Fields" "[]" Fields {
        refr id "";
        text name "";
        do |t| {
            for v in lists(REFS) {
                t.push(format!("ids {v:?}"), v.iter().map(|r| ("", X::Ref(*r as i64))).collect(), Box::new(move |w| {
                    w.ids(crate::tab::user(v.iter().map(|r| Ref::new(*r))));
                }));
            }
        };
        do |t| {
            for v in lists(TEXTS) {
                t.push(format!("names {v:?}"), v.iter().map(|r| ("", X::Text(r.to_string()))).collect(), Box::new(move |w| {
                    w.names(crate::tab::user(v.iter().map(|r| TextStr(r))));
                }));
            }
        };
        call "item" {"": 3} |w| w.item(3);
        wide "id" "" refs().len(), |i| X::Ref(refs()[i] as i64), |w| w.id(Ref::new(refs()[i]));
        wide "name" "" texts().len(), |i| X::Text(texts()[i].clone()), |w| w.name(TextStr(&texts()[i]));
    });
    table!(o; Dict "AdditionalActions" "<<>>" AdditionalActions {
        sub annot_curser_enter "E" "<</Type /Action>>";
        sub annot_cursor_exit "X" "<</Type /Action>>";
        sub annot_mouse_press "D" "<</Type /Action>>";
        sub annot_mouse_release "U" "<</Type /Action>>";
        sub annot_page_open "PO" "<</Type /Action>>";
        sub annot_page_close "PC" "<</Type /Action>>";
        sub annot_page_visible "PV" "<</Type /Action>>";
        sub annot_page_invisible "PI" "<</Type /Action>>";
        sub widget_focus "Fo" "<</Type /Action>>";
        sub widget_focus_loss "Bl" "<</Type /Action>>";
        sub page_open "O" "<</Type /Action>>";
        sub page_close "C" "<</Type /Action>>";
        sub form_calculate_partial "K" "<</Type /Action>>";
        sub form_format "F" "<</Type /Action>>";
        sub form_validate "V" "<</Type /Action>>";
        sub form_calculate "C" "<</Type /Action>>";
        sub cat_before_close "WC" "<</Type /Action>>";
        sub cat_before_save "WS" "<</Type /Action>>";
        sub cat_after_save "DS" "<</Type /Action>>";
        sub cat_before_print "WP" "<</Type /Action>>";
        sub cat_after_print "DP" "<</Type /Action>>";
    });
    // Files.
    table!(o; Dict "FileSpec" "<</Type /Filespec>>" FileSpec {
        name file_system "FS";
        str path "F";
        text unic_file "UF";
        bool volatile "V";
        ltext description "Desc";
        wide "embedded_file" "EF" refs().len(), |i| X::Dict(vec![(b"F".to_vec(), X::Ref(refs()[i] as i64))]), |w| w.embedded_file(Ref::new(refs()[i]));
        wide "embedded_file_with_unicode" "EF" refs().len(), |i| X::Dict(["F", "UF"].map(|k| (k.as_bytes().to_vec(), X::Ref(refs()[i] as i64))).to_vec()), |w| w.embedded_file_with_unicode(Ref::new(refs()[i]));
        call "embedded_file" {"EF": "<</F 5 0 R>>"} |w| w.embedded_file(Ref::new(5));
        call "embedded_file_with_unicode" {"EF": "<</F 5 0 R /UF 5 0 R>>"} |w| w.embedded_file_with_unicode(Ref::new(5));
        en association_kind "AFRelationship" {
            AssociationKind::Source => "/Source", AssociationKind::Data => "/Data",
            AssociationKind::Alternative => "/Alternative",
            AssociationKind::Supplement => "/Supplement",
            AssociationKind::EncryptedPayload => "/EncryptedPayload",
            AssociationKind::FormData => "/FormData", AssociationKind::Schema => "/Schema",
            AssociationKind::Unspecified => "/Unspecified",
        };
    });
    stream_table!(o; "EmbeddedFile" "<</Type /EmbeddedFile>>" EmbeddedFile |ch, id, d| ch.embedded_file(id, d), {
        name subtype "Subtype";
        sub params "Params" "<<>>";
        en filter "Filter" { Filter::FlateDecode => "/FlateDecode" };
    });
    table!(o; Dict "EmbeddingParams" "<<>>" EmbeddingParams {
        i32 size "Size";
        date creation_date "CreationDate";
        date modification_date "ModDate";
        str checksum "CheckSum";
    });
    // Renditions.
    table!(o; Dict "Rendition" "<</Type /Rendition>>" Rendition {
        en subtype "S" { RenditionType::Media => "/MR", RenditionType::Selector => "/SR" };
        ltext name "N";
        sub media_clip "C" "<</Type /MediaClip>>";
        sub media_play_params "P" "<</Type /MediaPlayParams>>";
    });
    table!(o; Dict "MediaClip" "<</Type /MediaClip>>" MediaClip {
        en subtype "S" { MediaClipType::Data => "/MCD", MediaClipType::Section => "/MCS" };
        ltext name "N";
        sub data "D" "<</Type /Filespec>>";
        str data_type "CT";
        sub permissions "P" "<</Type /MediaPermissions>>";
        texts alt_texts "Alt";
    });
    table!(o; Dict "MediaPlayParams" "<</Type /MediaPlayParams>>" MediaPlayParams {
        call "controls(true)" {"BE": "<</C true>>"} |w| w.controls(true);
        also "controls(false)" {"BE": "<</C false>>"} |w| w.controls(false);
        i32 probe_a "A";
    });
    table!(o; Dict "MediaPermissions" "<</Type /MediaPermissions>>" MediaPermissions {
        en temp_file "TF" {
            TempFileType::Never => "(TEMPNEVER)", TempFileType::Extract => "(TEMPEXTRACT)",
            TempFileType::Access => "(TEMPACCESS)", TempFileType::Always => "(TEMPALWAYS)",
        };
        i32 probe_a "A";
    });
    // Transitions.
    table!(o; Dict "Transition" "<</Type /Trans>>" Transition {
        en style "S" {
            TransitionStyle::Split => "/Split", TransitionStyle::Blinds => "/Blinds",
            TransitionStyle::Box => "/Box", TransitionStyle::Wipe => "/Wipe",
            TransitionStyle::Dissolve => "/Dissolve", TransitionStyle::Glitter => "/Glitter",
            TransitionStyle::R => "/R", TransitionStyle::Fly => "/Fly",
            TransitionStyle::Push => "/Push", TransitionStyle::Cover => "/Cover",
            TransitionStyle::Uncover => "/Uncover", TransitionStyle::Fade => "/Fade",
        };
        f32 duration "D";
        call "dimension(true)" {"Dm": "/V"} |w| w.dimension(true);
        also "dimension(false)" {"Dm": "/H"} |w| w.dimension(false);
        call "direction(true)" {"M": "/O"} |w| w.direction(true);
        also "direction(false)" {"M": "/I"} |w| w.direction(false);
        en angle "Di" {
            TransitionAngle::LeftToRight => 0, TransitionAngle::BottomToTop => 90,
            TransitionAngle::RightToLeft => 180, TransitionAngle::TopToBottom => 270,
            TransitionAngle::TopLeftToBottomRight => 315, TransitionAngle::None => "/None",
        };
        f32 scale "SS";
        // The value type is a listed finding, checked separately.
        f32 opaque "B";
    });
    // Forms.
    table!(o; Dict "Form" "<<>>" Form {
        refs fields "Fields";
        flags sig_flags "SigFlags" SigFlags;
        refs calculation_order "CO";
        sub default_resources "DR" "<<>>";
        str default_appearance "DA";
        en quadding "Q" { Quadding::Left => 0, Quadding::Center => 1, Quadding::Right => 2 };
    });
    table!(o; Dict "Field" "<<>>" Field {
        en field_type "FT" { FieldType::Button => "/Btn", FieldType::Text => "/Tx",
            FieldType::Choice => "/Ch", FieldType::Signature => "/Sig" };
        refr parent "Parent";
        refs children "Kids";
        text partial_name "T";
        ltext alternate_name "TU";
        text mapping_name "TM";
        flags field_flags "Ff" FieldFlags;
        sub additional_actions "AA" "<<>>";
        texts button_options "Opt";
        en checkbox_value "V" { CheckBoxState::Yes => "/Yes", CheckBoxState::Off => "/Off" };
        en checkbox_default_value "DV" { CheckBoxState::Yes => "/Yes", CheckBoxState::Off => "/Off" };
        name radio_value "V";
        name radio_default_value "DV";
        i32 text_max_len "MaxLen";
        ltext text_value "V";
        ltext text_default_value "DV";
        str vartext_default_appearance "DA";
        en vartext_quadding "Q" { Quadding::Left => 0, Quadding::Center => 1, Quadding::Right => 2 };
        text vartext_default_style "DS";
        ltext vartext_rich_value "RV";
        call "choice_options" {"Opt": "[(a)]"} |w| w.choice_options().option(TextStr("a"));
        also "choice_options none" {"Opt": "[]"} |w| w.choice_options();
        i32 choice_top_index "TI";
        i32s choice_indices "I";
        wide "choice_value" "V" texts().len(), |i| X::Text(texts()[i].clone()), |w| w.choice_value(Some(TextStr(&texts()[i])));
        wide "choice_default_value" "DV" texts().len(), |i| X::Text(texts()[i].clone()), |w| w.choice_default_value(Some(TextStr(&texts()[i])));
        call "choice_value(Some)" {"V": "(a)"} |w| w.choice_value(Some(TextStr("a")));
        also "choice_value(None)" {"V": "null"} |w| w.choice_value(None);
        also "choice_value(Some empty)" {"V": "()"} |w| w.choice_value(Some(TextStr("")));
        texts choice_values "V";
        call "choice_default_value(Some)" {"DV": "(a)"} |w| w.choice_default_value(Some(TextStr("a")));
        also "choice_default_value(None)" {"DV": "null"} |w| w.choice_default_value(None);
        texts choice_default_values "DV";
        refr signature_field_lock "Lock";
        refr signature_seed_value "SV";
    });
    value_table!(o; "Field::into_annotation" {
        "into_annotation", "<</Type /Annot /Subtype /Widget>>" => |o| o.start::<Field>().into_annotation();
        "field, into_annotation", "<</T (a) /Ff 1 /Type /Annot /Subtype /Widget>>" => |o| {
            let mut f = o.start::<Field>();
            f.partial_name(TextStr("a")).field_flags(FieldFlags::READ_ONLY);
            f.into_annotation();
        };
        "field, into_annotation, annotation", "<</FT /Tx /Type /Annot /Subtype /Widget /Rect [0.0 1.0 2.0 3.0] /MK <<>> /P 4 0 R>>" => |o| {
            let mut f = o.start::<Field>();
            f.field_type(FieldType::Text);
            let mut a = f.into_annotation();
            a.rect(Rect::new(0.0, 1.0, 2.0, 3.0));
            a.appearance_characteristics();
            a.page(Ref::new(4));
        };
    });
    table!(o; Array "ChoiceOptions" "[]" ChoiceOptions {
        ltext option "";
        do |t| {
            for v in lists(TEXTS) {
                t.push(format!("options {v:?}"), v.iter().map(|r| ("", X::Text(r.to_string()))).collect(), Box::new(move |w| {
                    w.options(crate::tab::user(v.iter().map(|r| TextStr(r))));
                }));
            }
        };
        wide "option" "" texts().len(), |i| X::Text(texts()[i].clone()), |w| w.option(TextStr(&texts()[i]));
        wide "export" "" texts().len(), |i| X::Arr(vec![X::Text(texts()[i].clone()), X::Text("a".into())]), |w| w.export(TextStr("a"), TextStr(&texts()[i]));
        wide "export value" "" texts().len(), |i| X::Arr(vec![X::Text("a".into()), X::Text(texts()[i].clone())]), |w| w.export(TextStr(&texts()[i]), TextStr("a"));
        do |t| {
            for a in TEXTS {
                for b in TEXTS {
                    t.push(format!("export({a:?}, {b:?})"), vec![("", X::Arr(vec![X::Text(b.to_string()), X::Text(a.to_string())]))], Box::new(move |w| {
                        w.export(TextStr(a), TextStr(b));
                    }));
                }
            }
            t.push("export(lang)".into(), vec![("", X::Arr(vec![X::Text("e".into()), lang_x(LANGS[1])]))], Box::new(move |w| {
                let segs = crate::gen::lang_segs(LANGS[1]);
                w.export(TextStrWithLang(&segs), TextStr("e"));
            }));
        };
        do |t| {
            for v in lists(TEXTS) {
                t.push(format!("exports {v:?}"), v.iter().enumerate().map(|(i, r)| ("", X::Arr(vec![X::Text(format!("e{i}")), X::Text(r.to_string())]))).collect(), Box::new(move |w| {
                    let es: Vec<String> = (0..v.len()).map(|i| format!("e{i}")).collect();
                    w.exports(crate::tab::user(v.iter().zip(&es).map(|(r, e)| (TextStr(r), TextStr(e)))));
                }));
            }
        };
    });
    table!(o; Dict "SignatureFieldLock" "<</Type /SigFieldLock>>" SignatureFieldLock {
        en action "Action" { SignatureLockAction::All => "/All",
            SignatureLockAction::Include => "/Include", SignatureLockAction::Exclude => "/Exclude" };
        texts fields "Fields";
        en access_permissions "P" { AccessPermissions::NoChanges => 1,
            AccessPermissions::FillAndSign => 2, AccessPermissions::Annotations => 3 };
    });
    table!(o; Dict "SignatureSeedValue" "<</Type /SV>>" SignatureSeedValue {
        flags constraint_flags "Ff" SignatureSeedValueFlags;
        name filter "Filter";
        names sub_filter "SubFilter";
        do |t| {
            use SignatureDigestMethod as D;
            let all = [(D::SHA1, "SHA1"), (D::SHA256, "SHA256"), (D::SHA384, "SHA384"), (D::SHA512, "SHA512"), (D::RIPEMD160, "RIPEMD160")];
            for v in lists(&[0usize, 1, 2, 3, 4]) {
                t.push(format!("digest_method {v:?}"), vec![("DigestMethod", X::Arr(v.iter().map(|i| crate::name(all[*i].1)).collect()))], Box::new(move |w| {
                    w.digest_method(crate::tab::user(v.iter().map(|i| all[*i].0)));
                }));
            }
        };
        en version "V" { SeedValueParserVersion::Pdf15 => 1, SeedValueParserVersion::Pdf17 => 2,
            SeedValueParserVersion::Pdf20 => 3 };
        sub certificate "Cert" "<</Type /SVCert>>";
        texts reasons "Reasons";
        sub modification_detection_prevention "MDP" "<<>>";
        sub timestamp "TimeStamp" "<<>>";
        texts legal_attestation "LegalAttestation";
        bool add_rev_info "AddRevInfo";
        en lock_document "LockDocument" { LockingIntent::Lock => "/true",
            LockingIntent::DoNotLock => "/false", LockingIntent::Auto => "/auto" };
        text appearance_filter "AppearanceFilter";
    });
    table!(o; Dict "SignatureModificationDetectionPrevention" "<<>>" SignatureModificationDetectionPrevention {
        en signature_type "P" {
            MdpSignatureType::ApprovalSignature => 0,
            MdpSignatureType::CertificationSignature(AccessPermissions::NoChanges) => 1,
            MdpSignatureType::CertificationSignature(AccessPermissions::FillAndSign) => 2,
            MdpSignatureType::CertificationSignature(AccessPermissions::Annotations) => 3,
        };
        i32 probe_a "A";
    });
    table!(o; Dict "SignatureTimeStamp" "<<>>" SignatureTimeStamp {
        str url "URL";
        call "required(true)" {"Ff": 1} |w| w.required(true);
        also "required(false)" {"Ff": 0} |w| w.required(false);
    });
    table!(o; Dict "CertificateSeedValue" "<</Type /SVCert>>" CertificateSeedValue {
        flags constraint_flags "Ff" CertificateSeedValueFlags;
        strs subject "Subject";
        str signature_policy_oid "SignaturePolicyOID";
        str signature_policy_hash_value "SignaturePolicyHashValue";
        name signature_policy_hash_algorithm "SignaturePolicyHashAlgorithm";
        strs signature_policy_commitment_type "SignaturePolicyCommitmentType";
        call "subject_dn" {"SubjectDN": "[<</CN (a) /O ()>> <<>>]"} |w| {
            let mut a = w.subject_dn();
            a.push().pair(Name(b"CN"), TextStr("a")).pair(Name(b"O"), TextStr(""));
            a.push();
        };
        also "subject_dn none" {"SubjectDN": "[]"} |w| w.subject_dn();
        do |t| {
            // All values of every component, alone, in pairs, and lists of usages.
            let opts: &'static [Option<bool>] = &[None, Some(false), Some(true)];
            let ch = |o: &Option<bool>| match o { None => 'X', Some(false) => '0', Some(true) => '1' };
            let mk = |v: &[usize]| CertificateKeyUsage {
                digital_signature: opts[v[0]], non_repudiation: opts[v[1]], key_encipherment: opts[v[2]],
                data_encipherment: opts[v[3]], key_agreement: opts[v[4]], key_cert_sign: opts[v[5]],
                crl_sign: opts[v[6]], encipher_only: opts[v[7]], decipher_only: opts[v[8]],
            };
            let tx = |v: &[usize]| v.iter().map(|i| ch(&opts[*i])).collect::<String>();
            let mut sets: Vec<Vec<Vec<usize>>> = vec![vec![(0..9).map(|i| i % 3).collect()], vec![], vec![vec![0; 9], vec![1; 9], vec![2; 9]]];
            for i in 0..9 {
                for a in 0..3 {
                    for b in 0..3 {
                        let mut v = vec![a; 9];
                        v[i] = b;
                        sets.push(vec![v]);
                    }
                }
            }
            for s in sets {
                t.push(format!("key_usage {s:?}"), vec![("KeyUsage", X::Arr(s.iter().map(|v| X::Str(tx(v).into_bytes())).collect()))], Box::new(move |w| {
                    w.key_usage(crate::tab::user(s.iter().map(|v| mk(v))));
                }));
            }
        };
        strs issuer "Issuer";
        strs oid "OID";
        str url "URL";
        en url_type "URLType" { CertificateUrlType::Browser => "/Browser",
            CertificateUrlType::Custom(Name(b"ASSP")) => "/ASSP",
            CertificateUrlType::Custom(Name(b"")) => "/" };
    });
    let _ = x;
    o
}

/// Extra entries through the generic writer behind small writers, so that they
/// have sequences at all.
trait Probe {
    fn probe_a(&mut self, v: i32);
}
macro_rules! probe {
    ($($w:ident)*) => { $(impl Probe for $w<'_> {
        fn probe_a(&mut self, v: i32) {
            self.pair(Name(b"A"), v);
        }
    })* };
}
probe!(MediaPlayParams MediaPermissions SignatureModificationDetectionPrevention);
