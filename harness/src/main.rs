fn main() {
    vh::run()
}
