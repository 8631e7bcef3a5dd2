
/// Accessors for the checker.
pub mod probe {
    use super::*;
    pub struct Picker<'a>(PickingScene<'a>);
    impl<'a> Picker<'a> {
        pub fn new(scene: &'a mut Scene, names: &[&str]) -> Self {
            Self(PickingScene::new(
                scene,
                names.iter().map(|n| n.to_string()).collect(),
            ))
        }
        pub fn finish(mut self) -> Hits {
            Hits(self.0.take_collected())
        }
        pub fn sink(&mut self) -> &mut (impl RenderSink + use<'a>) {
            &mut self.0
        }
    }
    pub struct Hits(Vec<LayerHit>);
    impl Hits {
        pub fn list(&self) -> Vec<(String, Rect)> {
            self.0.iter().map(|h| (h.name.clone(), h.rect)).collect()
        }
        pub fn pick(&self, p: Point) -> Option<usize> {
            pick_layer(&self.0, p)
        }
    }
    pub fn to_scene(cursor: Vec2, viewport: Vec2, resolution: Vec2, camera: Affine) -> Point {
        cursor_to_scene(cursor, viewport, resolution, camera)
    }
}
