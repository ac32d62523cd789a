//! Rendering of errors by several reporters
use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme, JSONReportHandler, NarratableReportHandler, DebugReportHandler};
use crate::obs::diags;

/// Renders the error in all ways and checks that labels can be read from the
/// source; returns number of bytes rendered
pub fn check(e: &knuffel::Error, text: &str) -> Result<usize, String> {
    let ds = diags(e);
    if ds.is_empty() {
        return Err("an error without diagnostics".into());
    }
    let src = e.source_code().ok_or("no source code in the error")?;
    for d in &ds {
        if d.msg.is_empty() {
            return Err("empty message".into());
        }
        for l in &d.labels {
            let s = src.read_span(&(l.start, l.len).into(), 1, 1)
                .map_err(|x| format!("source of label {}+{} of {:?} can't be read: {}", l.start, l.len, d.msg, x))?;
            if std::str::from_utf8(s.data()).is_err() {
                return Err(format!("snippet of label {}+{} of {:?} is not UTF-8", l.start, l.len, d.msg));
            }
        }
    }
    let mut out = String::new();
    // rendering of very long lines takes long
    if text.len() < 20_000 && ds.len() < 200 {
        GraphicalReportHandler::new_themed(GraphicalTheme::unicode_nocolor()).with_width(80)
            .render_report(&mut out, e).map_err(|x| format!("graphical: {}", x))?;
        NarratableReportHandler::new().render_report(&mut out, e).map_err(|x| format!("narrated: {}", x))?;
    }
    JSONReportHandler::new().render_report(&mut out, e).map_err(|x| format!("json: {}", x))?;
    struct D<'a>(&'a knuffel::Error);
    impl std::fmt::Debug for D<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            DebugReportHandler::new().render_report(f, self.0)
        }
    }
    out.push_str(&format!("{:?}", D(e)));
    out.push_str(&format!("{} {:?}", e, e));
    Ok(out.len())
}
