mod mini;
use mini::*;
#[tokio::main]
async fn main() {
    let (mut c, _ev, mut rx, mut b) = session().await;
    c.publish(PublishBuilder::from_str("t", "hello")).unwrap();
    println!("{:?}", b.packet().await);
    b.send(&publish("x", 5, 1, 0, &[1, 0], b"yy")).await;
    println!("{:?} {:?}", note(&mut rx).await, b.packet().await);
}
