pub async fn ctrl_c() -> std::io::Result<()> {
    std::future::pending().await
}
